//@ source core/src/editor/selection.rs
//@ struct Selection Clone,Copy
//@ verus
spec fn sel_begin(s: Selection) -> int { if s.anchor <= s.cursor { s.anchor as int } else { s.cursor as int } }
spec fn sel_end(s: Selection) -> int { if s.anchor <= s.cursor { s.cursor as int } else { s.anchor as int } }
//@ fn Default@Selection::default
    ensures result == (Selection { anchor: 0, cursor: 0, target_col: 1 })
//@ fn Selection::new
//@ rewrite Default :: default ( ) => Selection::default()
    ensures result == (Selection { anchor: 0, cursor: 0, target_col: 1 })
//@ fn Selection::begin
    ensures result == sel_begin(*self)
//@ fn Selection::end
    ensures result == sel_end(*self)
//@ fn Selection::clamp_to
    ensures
        final(self).anchor == if old(self).anchor <= n { old(self).anchor } else { n },
        final(self).cursor == if old(self).cursor <= n { old(self).cursor } else { n },
        final(self).target_col == old(self).target_col,
        result == if sel_end(*old(self)) > n { sel_end(*old(self)) - n } else { 0 },
        sel_end(*final(self)) <= n, sel_end(*final(self)) <= sel_end(*old(self)),
