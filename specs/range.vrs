//@ source core/src/editor/range.rs
//@ trait Range
    spec fn rs(&self) -> int;
    spec fn re(&self) -> int;
    /// a range is valid when it does not run backwards and its end is representable
    spec fn rok(&self) -> bool;
//@ fn Range::start intrait
    requires self.rok(), self.rs() <= self.re()
    ensures result == self.rs()
//@ fn Range::end intrait
    requires self.rok(), self.rs() <= self.re()
    ensures result == self.re()
//@ fn Range::len intrait
    requires self.rok(), self.rs() <= self.re()
    ensures result == self.re() - self.rs()
//@ struct OffsetRange Clone,Copy
//@ fn OffsetRange::new
    ensures result.offset == offset, result.length == length
//@ traitimpl Range@OffsetRange
    spec fn rs(&self) -> int { self.offset as int }
    spec fn re(&self) -> int { self.offset + self.length }
    spec fn rok(&self) -> bool { self.offset + self.length <= usize::MAX }
//@ fn Range@OffsetRange::start intrait
//@ fn Range@OffsetRange::end intrait
//@ fn Range@OffsetRange::len intrait
//@ traitimpl Range@Range
    spec fn rs(&self) -> int { self.start as int }
    spec fn re(&self) -> int { self.end as int }
    spec fn rok(&self) -> bool { self.start <= self.end }
//@ fn Range@Range::start intrait
//@ fn Range@Range::end intrait
