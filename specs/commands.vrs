//@ rewrite < requests :: Edit as requests :: Request > :: Params => EditParams
//@ rewrite < requests :: Menu as requests :: Request > :: Params => MenuParams
//@ rewrite < requests :: MenuSelect as requests :: Request > :: Params => MenuSelectParams
//@ rewrite < requests :: View as requests :: Request > :: Params => String
//@ rewrite < requests :: ViewAdd as requests :: Request > :: Params => String
//@ rewrite < requests :: ViewRemove as requests :: Request > :: Params => String
//@ rewrite < requests :: Exec as requests :: Request > :: Params => String
//@ rewrite < requests :: Keys as requests :: Request > :: Params => Vec<KeyEvent>
//@ rewrite < requests :: $x as requests :: Request > :: Result => ()
//@ rewrite rlua :: Lua => VxLua
//@ rewrite HashSet < => std::collections::HashSet <
//@ if !menus
//@ rewrite HashMap < => std::collections::HashMap <
//@ end
//@ source remote/src/protocol.rs
//@ struct requests::EditParams
//@ struct requests::MenuParams
//@ struct requests::MenuSelectParams
//@ verus
// ---- the editor behind the requests (its own state is C09, the menus C12) -------
#[verifier::external_body]
struct KeyEvent { _p: u8 }
#[verifier::external_body]
struct Core { _p: u8 }
#[verifier::external_body]
struct VxLua { _p: u8 }
//@ if !menus
#[verifier::external_body]
struct Menu { _p: u8 }
//@ end
#[verifier::external_body]
struct CoreError { _p: u8 }
impl VxShow for CoreError {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
uninterp spec fn core_edit(c: Core, id: usize, name: Seq<char>, scratch: bool) -> (Core, bool);
uninterp spec fn core_view(c: Core, id: usize, view: Seq<char>) -> (Core, bool);
uninterp spec fn core_view_add(c: Core, id: usize, buffer: Seq<char>) -> (Core, bool);
uninterp spec fn core_view_remove(c: Core, id: usize, buffer: Seq<char>) -> (Core, bool);
uninterp spec fn core_view_delete(c: Core, id: usize) -> Core;
uninterp spec fn core_remove_client(c: Core, id: usize) -> Core;
/// the clients the core knows
uninterp spec fn core_clients(c: Core) -> Set<usize>;
impl Core {
    /// notes an error and tells the client (C17)
    #[verifier::external_body]
    fn error(&mut self, client: usize, tag: &str, content: &String)
        ensures core_clients(*final(self)) == core_clients(*old(self))
    { unimplemented!() }
    #[verifier::external_body]
    fn edit(&mut self, client_id: usize, name: &String, scratch: bool) -> (r: Result<(), CoreError>)
        requires core_clients(*old(self)).contains(client_id)
        ensures core_clients(*final(self)) == core_clients(*old(self)), (*final(self), r is Ok) == core_edit(*old(self), client_id, name@, scratch)
    { unimplemented!() }
    #[verifier::external_body]
    fn view(&mut self, client_id: usize, view: &String) -> (r: Result<(), CoreError>)
        requires core_clients(*old(self)).contains(client_id)
        ensures core_clients(*final(self)) == core_clients(*old(self)), (*final(self), r is Ok) == core_view(*old(self), client_id, view@)
    { unimplemented!() }
    #[verifier::external_body]
    fn add_to_current_view(&mut self, client_id: usize, buffer: &String) -> (r: Result<(), CoreError>)
        requires core_clients(*old(self)).contains(client_id)
        ensures core_clients(*final(self)) == core_clients(*old(self)), (*final(self), r is Ok) == core_view_add(*old(self), client_id, buffer@)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_from_current_view(&mut self, client_id: usize, buffer: &String) -> (r: Result<(), CoreError>)
        requires core_clients(*old(self)).contains(client_id)
        ensures core_clients(*final(self)) == core_clients(*old(self)), (*final(self), r is Ok) == core_view_remove(*old(self), client_id, buffer@)
    { unimplemented!() }
    #[verifier::external_body]
    fn delete_current_view(&mut self, client_id: usize)
        requires core_clients(*old(self)).contains(client_id)
        ensures core_clients(*final(self)) == core_clients(*old(self)), *final(self) == core_view_delete(*old(self), client_id)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_client(&mut self, client_id: usize)
        ensures core_clients(*final(self)) == core_clients(*old(self)).remove(client_id), *final(self) == core_remove_client(*old(self), client_id)
    { unimplemented!() }
}
/// str::parse calls from_str
trait VxParse<T> {
    fn vx_parse(&self) -> (r: Result<T, JsonCodingError>);
}
impl VxParse<Request> for str {
    fn vx_parse(&self) -> (r: Result<Request, JsonCodingError>)
        ensures match parsed::<Request>(self@) { Some(q) => r == Ok::<Request, JsonCodingError>(q), None => r is Err }
    { Request::from_str(self) }
}
impl VxShow for Request {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
//@ source core/src/editor/mod.rs
//@ struct Editor
//@ verus
/// only the core changed
spec fn core_only(a: Editor, b: Editor) -> bool {
    a.session_name == b.session_name && a.command_map == b.command_map
        && a.stopped_clients == b.stopped_clients && a.lua == b.lua
}
/// the clients the editor knows
spec fn known_clients(e: Editor) -> Set<usize> { core_clients(e.core) }
/// the client stays or quits; the others stay
spec fn stays_or_quits(a: Editor, b: Editor, id: usize) -> bool {
    (known_clients(b) == known_clients(a) && b.stopped_clients@ == a.stopped_clients@)
    || (known_clients(b) == known_clients(a).remove(id) && b.stopped_clients@ == a.stopped_clients@.insert(id))
}
// ---- assumed: the commands that run menu actions and Lua: what they do and answer
//@ if !menus
uninterp spec fn menu_outcome(e: Editor, id: usize, p: MenuParams) -> (Editor, Result<(), Error>);
uninterp spec fn select_outcome(e: Editor, id: usize, p: MenuSelectParams) -> (Editor, Result<(), Error>);
//@ end
uninterp spec fn keys_outcome(e: Editor, id: usize, p: Vec<KeyEvent>) -> (Editor, Result<(), Error>);
uninterp spec fn exec_outcome(e: Editor, id: usize, p: Seq<char>) -> (Editor, Result<(), Error>);
impl Editor {
//@ if !menus
    #[verifier::external_body]
    fn command_menu(&mut self, client_id: usize, params: &MenuParams) -> (r: Result<(), Error>)
        requires known_clients(*old(self)).contains(client_id)
        ensures stays_or_quits(*old(self), *final(self), client_id), (*final(self), r) == menu_outcome(*old(self), client_id, *params)
    { unimplemented!() }
    #[verifier::external_body]
    fn command_menu_select(&mut self, client_id: usize, params: &MenuSelectParams) -> (r: Result<(), Error>)
        requires known_clients(*old(self)).contains(client_id)
        ensures stays_or_quits(*old(self), *final(self), client_id), (*final(self), r) == select_outcome(*old(self), client_id, *params)
    { unimplemented!() }
//@ end
    #[verifier::external_body]
    fn command_keys(&mut self, client_id: usize, params: &Vec<KeyEvent>) -> (r: Result<(), Error>)
        requires known_clients(*old(self)).contains(client_id)
        ensures stays_or_quits(*old(self), *final(self), client_id), final(self).command_map == old(self).command_map, (*final(self), r) == keys_outcome(*old(self), client_id, *params)
    { unimplemented!() }
    #[verifier::external_body]
    fn command_exec(&mut self, client_id: usize, params: &String) -> (r: Result<(), Error>)
        requires known_clients(*old(self)).contains(client_id)
        ensures stays_or_quits(*old(self), *final(self), client_id), final(self).command_map == old(self).command_map, (*final(self), r) == exec_outcome(*old(self), client_id, params@)
    { unimplemented!() }
}
//@ fn Editor::command_edit
    requires known_clients(*old(self)).contains(client_id)
    ensures
        known_clients(*final(self)) == known_clients(*old(self)),
        (final(self).core, result is Ok) == core_edit(old(self).core, client_id, params.name@, params.scratch),
        result is Err ==> result->Err_0.code == -32602,
        core_only(*old(self), *final(self)),
//@ fn Editor::command_view
    requires known_clients(*old(self)).contains(client_id)
    ensures
        known_clients(*final(self)) == known_clients(*old(self)),
        (final(self).core, result is Ok) == core_view(old(self).core, client_id, params@),
        result is Err ==> result->Err_0.code == -32600,
        core_only(*old(self), *final(self)),
//@ fn Editor::command_view_add
    requires known_clients(*old(self)).contains(client_id)
    ensures
        known_clients(*final(self)) == known_clients(*old(self)),
        (final(self).core, result is Ok) == core_view_add(old(self).core, client_id, params@),
        result is Err ==> result->Err_0.code == -32600,
        core_only(*old(self), *final(self)),
//@ fn Editor::command_view_remove
    requires known_clients(*old(self)).contains(client_id)
    ensures
        known_clients(*final(self)) == known_clients(*old(self)),
        (final(self).core, result is Ok) == core_view_remove(old(self).core, client_id, params@),
        result is Err ==> result->Err_0.code == -32600,
        core_only(*old(self), *final(self)),
//@ fn Editor::command_view_delete
    requires known_clients(*old(self)).contains(client_id)
    ensures
        known_clients(*final(self)) == known_clients(*old(self)),
        final(self).core == core_view_delete(old(self).core, client_id), result is Ok,
        core_only(*old(self), *final(self)),
//@ fn Editor::command_quit
    ensures
        known_clients(*final(self)) == known_clients(*old(self)).remove(client_id),
        final(self).core == core_remove_client(old(self).core, client_id), result is Ok,
        final(self).session_name == old(self).session_name, final(self).command_map == old(self).command_map,
        final(self).lua == old(self).lua,
        final(self).stopped_clients@ == old(self).stopped_clients@.insert(client_id),
