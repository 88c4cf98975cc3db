//@ unit speak
//@ set tell
//@ include notifyfns.vrs
