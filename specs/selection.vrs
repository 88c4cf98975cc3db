//@ unit selection
//@ include coordfns.vrs
//@ include selfns.vrs
//@ source core/src/editor/buffer.rs
//@ verus
// ---- what selection ranges rest on ---------------------------------------------
type VxOffsets = core::ops::Range<usize>;
#[verifier::external_body]
struct PathBuf { _p: u8 }
#[verifier::external_body]
struct SystemTime { _p: u8 }
impl Copy for SystemTime {}
impl Clone for SystemTime {
    #[verifier::external_body]
    fn clone(&self) -> SystemTime { unimplemented!() }
}
/// the bytes at and after `off` up to the end of its line, or the line feed there
spec fn rest_of_line(b: Seq<u8>, off: int) -> Seq<u8> {
    let e = lend(b, line_at(b, off));
    b.subrange(off, if e > off { e } else { off + 1 })
}
/// the bytes of the grapheme at `off`
spec fn grapheme_at(b: Seq<u8>, off: int) -> Seq<u8> {
    let r = rest_of_line(b, off);
    r.subrange(gstarts(r)[0] as int, gend(r, 0))
}
//@ enum BufferSource
//@ struct Buffer
//@ fn Buffer::selection_range
//@ rewrite Range < usize > => VxOffsets
    requires self.content.wf(), sel_end(*sel) <= self.content.bytes().len(),
    ensures
        result.start == sel_begin(*sel),
        sel_end(*sel) == self.content.bytes().len() ==> result.end == sel_end(*sel),
        // the grapheme as it is read back
        sel_end(*sel) < self.content.bytes().len() ==> result.end == sel_end(*sel) + sbytes(lossy(grapheme_at(self.content.bytes(), sel_end(*sel)))).len(),
        result.start <= result.end,
        // bytes that are no UTF-8 are read back as replacement characters
        sel_end(*sel) < self.content.bytes().len() && sbytes(lossy(grapheme_at(self.content.bytes(), sel_end(*sel)))) == grapheme_at(self.content.bytes(), sel_end(*sel))
            ==> sel_end(*sel) < result.end <= self.content.bytes().len() && result.end == sel_end(*sel) + grapheme_at(self.content.bytes(), sel_end(*sel)).len(),
//@ entry
    proof {
        broadcast use axiom_graphemes;
        let b = self.content.bytes();
        let off = sel_end(*sel);
        if off < b.len() {
            lemma_line_at(b, off);
            lemma_line(b, line_at(b, off));
            let r = rest_of_line(b, off);
            if gstarts(r).len() > 1 { assert(gstarts(r)[0] < gstarts(r)[1]); }
            lemma_gcount(r);
        }
    }
