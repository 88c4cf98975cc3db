//@ include commands.vrs
//@ source core/src/editor/mod.rs
//@ verus
/// the request is answered
spec fn answers(r: Response, id: Id) -> bool {
    is_2_0(r.jsonrpc) && r.id == id && !(r.result is Some && r.error is Some)
}
/// done, or failed with that code
spec fn outcome(r: Response, ok: bool, code: int) -> bool {
    if ok { r.error is None && r.result == Some(null_value()) } else { failed(r, code) }
}
/// a request without parameters or with ones that cannot be read changes nothing
spec fn refused<P>(req: Request, r: Response, a: Editor, b: Editor) -> bool {
    match read::<P>(req.params) {
        Some(Some(p)) => true,
        Some(None) => failed(r, -32600) && a == b,
        None => failed(r, -32602) && a == b,
    }
}
spec fn given<P>(req: Request) -> Option<P> {
    match read::<P>(req.params) { Some(Some(p)) => Some(p), _ => None }
}
spec fn on_core(r: Response, a: Editor, b: Editor, o: (Core, bool), code: int) -> bool {
    b.core == o.0 && core_only(a, b) && outcome(r, o.1, code)
}
spec fn reported(r: Response, o: Result<(), Error>) -> bool {
    holds(r, o) && (o is Ok ==> r.result == Some(null_value()))
}
spec fn on_editor(r: Response, b: Editor, o: (Editor, Result<(), Error>)) -> bool {
    b == o.0 && holds(r, o.1) && (o.1 is Ok ==> r.result == Some(null_value()))
}
spec fn known(m: Seq<char>) -> bool {
    m == "edit"@ || m == "quit"@ || m == "view"@ || m == "view-delete"@ || m == "view-add"@
    || m == "view-remove"@ || m == "menu"@ || m == "menu-select"@ || m == "keys"@ || m == "exec"@
}
spec fn dispatched(req: Request, id: usize, r: Response, a: Editor, b: Editor) -> bool {
    let m = req.method@;
    if m == "edit"@ {
        refused::<EditParams>(req, r, a, b) && (given::<EditParams>(req) matches Some(p) ==>
            on_core(r, a, b, core_edit(a.core, id, p.name@, p.scratch), -32602))
    } else if m == "quit"@ {
        outcome(r, true, 0) && b.core == core_remove_client(a.core, id) && b.stopped_clients@ == a.stopped_clients@.insert(id)
    } else if m == "view"@ {
        refused::<String>(req, r, a, b) && (given::<String>(req) matches Some(p) ==>
            on_core(r, a, b, core_view(a.core, id, p@), -32600))
    } else if m == "view-delete"@ {
        on_core(r, a, b, (core_view_delete(a.core, id), true), 0)
    } else if m == "view-add"@ {
        refused::<String>(req, r, a, b) && (given::<String>(req) matches Some(p) ==>
            on_core(r, a, b, core_view_add(a.core, id, p@), -32600))
    } else if m == "view-remove"@ {
        refused::<String>(req, r, a, b) && (given::<String>(req) matches Some(p) ==>
            on_core(r, a, b, core_view_remove(a.core, id, p@), -32600))
    } else if m == "menu"@ {
        refused::<MenuParams>(req, r, a, b) && (given::<MenuParams>(req) matches Some(p) ==>
//@ if menus
            (exists|o: Result<(), Error>| #[trigger] menu_done(a, b, id, p, o) && reported(r, o)))
//@ end
//@ if !menus
            on_editor(r, b, menu_outcome(a, id, p)))
//@ end
    } else if m == "menu-select"@ {
        refused::<MenuSelectParams>(req, r, a, b) && (given::<MenuSelectParams>(req) matches Some(p) ==>
//@ if menus
            (exists|o: Result<(), Error>| #[trigger] select_done(a, b, id, p, o) && reported(r, o)))
//@ end
//@ if !menus
            on_editor(r, b, select_outcome(a, id, p)))
//@ end
    } else if m == "keys"@ {
        refused::<Vec<KeyEvent>>(req, r, a, b) && (given::<Vec<KeyEvent>>(req) matches Some(p) ==>
            on_editor(r, b, keys_outcome(a, id, p)))
    } else if m == "exec"@ {
        refused::<String>(req, r, a, b) && (given::<String>(req) matches Some(p) ==>
            on_editor(r, b, exec_outcome(a, id, p@)))
    } else {
        failed(r, -32601) && core_only(a, b)
    }
}
//@ verus
/// r is the answer to that line of that client
spec fn replied(r: Response, line: Seq<char>, id: usize, a: Editor, b: Editor) -> bool {
    match parsed::<Request>(line) {
        None => answers(r, Id::Null) && failed(r, -32600) && core_only(a, b),
        Some(req) => answers(r, req.id) && dispatched(req, id, r, a, b),
    }
}
//@ fn Editor::handle
    requires
        known_clients(*old(self)).contains(client_id),
//@ if menus
        menus(old(self).command_map.m()),
//@ end
    ensures
//@ if menus
        menus(final(self).command_map.m()),
//@ end
        stays_or_quits(*old(self), *final(self), client_id),
        result matches Ok(r) && replied(r, line@, client_id, *old(self), *final(self)),
//@ entry
    broadcast use {axiom_unit, axiom_str_ext};
