use heck::{CamelCase, SnakeCase};
pub fn camel(s: &str) -> String {
    s.to_camel_case()
}
pub fn snake(s: &str) -> String {
    s.to_snake_case()
}
