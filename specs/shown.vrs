//@ unit shown
//@ include nav.vrs assumed
//@ include selection.vrs assumed
//@ include json.vrs
//@ include fmt.vrs
//@ include replace.vrs
//@ include viewfns.vrs assumed
//@ include maps.vrs
//@ include shownfns.vrs
