//@ unit pics
//@ set pics
//@ set notified
//@ include nav.vrs assumed
//@ include sync.vrs assumed
//@ include selection.vrs assumed
//@ include json.vrs
//@ include fmt.vrs
//@ include replace.vrs
//@ include viewfns.vrs assumed
//@ include viewkey.vrs
//@ include maps.vrs
//@ include shownfns.vrs assumed
//@ include corefns.vrs
//@ include lua.vrs
