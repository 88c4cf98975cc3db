//@ unit view
//@ include common.vrs
//@ include json.vrs
//@ include fmt.vrs
//@ include replace.vrs
//@ include viewfns.vrs
//@ include viewkey.vrs
