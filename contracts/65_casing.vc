## casing.rs
@fn casing::to_snake_case
@ensures
    res.s@ == snake(input.s@),
