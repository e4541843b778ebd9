pub fn fonts_in_collection(_: &[u8]) -> Option<u32> {
    None
}
