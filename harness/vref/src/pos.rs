/// Line/column of the point after the first `k` characters of `input`: one-based line, zero-based
/// column. LF, VT, FF, NEL, LS, PS, a CR not followed by LF, and CR LF (at its LF) each end a line.
pub fn line_col(input: &[char], k: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 0);
    for i in 0..k {
        let c = input[i];
        let brk = match c {
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => input.get(i + 1) != Some(&'\n'),
            _ => false,
        };
        if brk {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    (line, col)
}
