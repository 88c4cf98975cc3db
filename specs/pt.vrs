//@ unit pt
//@ include ptfns.vrs
