//@ unit notify
//@ include notifyfns.vrs
