//@ unit rpc
//@ include rpcfns.vrs
//@ include handle.vrs
