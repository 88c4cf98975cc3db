//@ unit search
//@ include common.vrs
//@ include bytes.vrs
//@ include fmt.vrs
//@ include searchfns.vrs
