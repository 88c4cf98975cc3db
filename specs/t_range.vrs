//@ unit t
//@ include common.vrs
//@ include range.vrs
