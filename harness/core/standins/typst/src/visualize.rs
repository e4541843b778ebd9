#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Color;
impl Color {
    pub const BLACK: Color = Color;
    pub const WHITE: Color = Color;
    pub const RED: Color = Color;
    pub const GREEN: Color = Color;
    pub const BLUE: Color = Color;
}
impl std::str::FromStr for Color {
    type Err = &'static str;
    fn from_str(_: &str) -> Result<Self, Self::Err> {
        Ok(Color)
    }
}
