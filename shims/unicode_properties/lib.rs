//! What the lexer needs of it: whether a character no identifier may have is an emoji.
use unicode_ident::UNICODE_VERSION as V;
pub const UNICODE_VERSION: (u64, u64, u64) = (V.0 as u64, V.1 as u64, V.2 as u64);
pub trait UnicodeEmoji {
    fn is_emoji_char(&self) -> bool;
}
impl UnicodeEmoji for char {
    fn is_emoji_char(&self) -> bool {
        *self >= '\u{1f300}' && *self < '\u{1fb00}'
    }
}
