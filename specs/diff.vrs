//@ unit diff
//@ include difffns.vrs
