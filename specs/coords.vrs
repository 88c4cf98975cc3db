//@ unit coords
//@ include coordfns.vrs
