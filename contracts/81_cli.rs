// The command line and the world outside: what clap, std::io and the printing
// of serde_json do is assumed.
verus! {
pub mod world {
use super::*;
use super::shim::*;

/// what the process has printed
pub struct World { pub out: Ghost<Seq<char>> }

/// whether a switch is on the command line, in its short or in its long form
pub uninterp spec fn clap_flag(short: Option<char>, long: Option<Seq<char>>) -> bool;
/// the value an option has on the command line, or the default
pub uninterp spec fn clap_choice(short: Option<char>, long: Option<Seq<char>>, values: Set<Seq<char>>, default: Seq<char>) -> Seq<char>;
/// an argument by position
pub uninterp spec fn clap_positional(n: int) -> Option<String>;

/// the text of standard input, and of a file that can be opened
pub uninterp spec fn stdin_text() -> Seq<char>;
pub uninterp spec fn file_text(path: Seq<char>) -> Option<Seq<char>>;
/// the value of a JSON text
pub uninterp spec fn json_value(text: Seq<char>) -> Option<Value>;
/// a value as JSON text, indented and not
pub uninterp spec fn json_pretty(v: Value) -> Seq<char>;
pub uninterp spec fn json_compact(v: Value) -> Seq<char>;
impl VDisp for Value {
    open spec fn disp(&self) -> Seq<char> { json_compact(*self) }
    #[verifier::external_body] fn v_disp(&self) -> (r: String) ensures json_value(r.s@) == Some(*self) { unimplemented!() }
}
pub open spec fn line(s: Seq<char>) -> Seq<char> { s + seq!['\n'] }

pub struct Reader { pub text: Ghost<Seq<char>> }
pub struct IoError { pub x: u8 }
pub mod io {
    use super::*;
    #[verifier::external_body]
    pub fn stdin() -> (r: Reader) ensures r.text@ == stdin_text() { unimplemented!() }
}
#[verifier::external_body]
pub fn stdin() -> (r: Reader) ensures r.text@ == stdin_text() { unimplemented!() }
pub struct File { pub x: u8 }
impl File {
    #[verifier::external_body]
    pub fn open(p: &String) -> (r: Result<Reader, IoError>)
        ensures (r is Ok) == (file_text(p.s@) is Some), r is Ok ==> r->Ok_0.text@ == file_text(p.s@)->0
    { unimplemented!() }
}
pub struct BufReader { pub x: u8 }
impl BufReader {
    #[verifier::external_body]
    pub fn new(r: Reader) -> (s: Reader) ensures s == r { unimplemented!() }
}
#[verifier::external_body]
pub fn from_reader(r: Box<Reader>) -> (v: Result<Value, DeError>)
    ensures (v is Ok) == (json_value((*r).text@) is Some), v is Ok ==> v->Ok_0 == json_value((*r).text@)->0
{ unimplemented!() }
#[verifier::external_body]
pub fn to_string_pretty(v: &Value) -> (s: Result<String, DeError>)
    ensures s is Ok, s->Ok_0.s@ == json_pretty(*v), json_value(json_pretty(*v)) == Some(*v)
{ unimplemented!() }
#[verifier::external_body]
pub fn to_string(v: &Value) -> (s: Result<String, DeError>)
    ensures s is Ok, s->Ok_0.s@ == json_compact(*v), json_value(json_compact(*v)) == Some(*v)
{ unimplemented!() }
/// a line break after a JSON text does not change its value
#[verifier::external_body]
pub fn v_println(w: &mut World, s: &String)
    ensures
        final(w).out@ == old(w).out@ + line(s.s@),
        json_value(s.s@) is Some ==> json_value(line(s.s@)) == json_value(s.s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_print(w: &mut World, s: &String)
    ensures final(w).out@ == old(w).out@ + s.s@
{ unimplemented!() }
}
} // verus!
