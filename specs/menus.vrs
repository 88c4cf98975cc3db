//@ unit menus
//@ set menus
//@ include rpcfns.vrs
//@ include maps.vrs
//@ rewrite jsonrpc :: Error => Error
//@ rewrite PathBuf => VxPath
//@ rewrite requests :: EditParams => EditParams
//@ rewrite (provider) (info) => vx_provide (provider , info)
//@ rewrite (* provider) (info) => vx_provide (provider , info)
//@ rewrite action : submenu_action => action : vx_action ("submenu")
//@ rewrite vec ! [$$x] => vx_one ($$x)
//@ rewrite String :: from ($x) => $x . vx_to_owned ()
//@ rewrite . command_map [$$k] => . command_map . vx_index ($$k)
//@ rewrite HashMap :: new () => HashMap :: < String , Menu > :: new ()
//@ rewrite . get_notifier () . notify ($c , notifications :: Menu :: new ($$p)) => . vx_notify_menu ($c , $$p)
//@ rewrite . get_notifier () . notify ($c , notifications :: Menu :: new ($$p) ,) => . vx_notify_menu ($c , $$p)
//@ rewrite . get_notifier () . notify ($$a . $c , notifications :: Menu :: new ($$p)) => . vx_notify_menu ($$a . $c , $$p)
//@ verus
fn vx_one<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x]
{ let mut v = Vec::new(); v.push(x); v }
/// a == b
fn vx_same(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ broadcast use axiom_str_ext; *a == *b }
// ---- menus: what is behind a function pointer is known by its name -----------------
/// fn(&str, &mut Editor, usize) -> Result<(), Error>
#[derive(Clone, Copy)]
struct MenuAction { p: u64 }
/// the closure it points to: vx_action("menu/key"), or "submenu" for submenu_action
uninterp spec fn named(a: MenuAction) -> Seq<char>;
#[verifier::external_body]
fn vx_action(name: &str) -> (r: MenuAction)
    ensures named(r) == name@
{ unimplemented!() }
/// fn(&EditorInfo) -> Vec<MenuEntry>
#[derive(Clone, Copy)]
struct EntryProvider { p: u64 }
uninterp spec fn provides(a: EntryProvider) -> Seq<char>;
#[verifier::external_body]
fn vx_provider(name: &str) -> (r: EntryProvider)
    ensures provides(r) == name@
{ unimplemented!() }
#[verifier::external_body]
struct VxPath { _p: u8 }
/// notifications::MenuParams
#[verifier::external_body]
struct VxShownMenu { _p: u8 }
//@ source core/src/editor/menu.rs
//@ struct MenuEntry
//@ enum Source
//@ struct Menu
//@ source core/src/editor/mod.rs
//@ struct EditorInfo
//@ verus
/// the entries that a menu shows for a search (C12)
uninterp spec fn shown(m: Menu, search: Seq<char>) -> VxShownMenu;
impl Menu {
    #[verifier::external_body]
    fn to_notification_params(&self, search: &str) -> (r: VxShownMenu)
        ensures r == shown(*self, search@)
    { unimplemented!() }
}
//@ include commands.vrs
//@ verus
// ---- trusted: what the core answers ---------------------------------------------------
spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
uninterp spec fn core_buffers(c: Core) -> Seq<Seq<char>>;
uninterp spec fn core_views(c: Core) -> Seq<Seq<char>>;
uninterp spec fn core_cwd(c: Core) -> VxPath;
/// the core after that menu was sent to that client
uninterp spec fn core_told(c: Core, id: usize, m: VxShownMenu) -> Core;
impl Core {
    #[verifier::external_body]
    fn buffers(&self) -> (r: Vec<String>) ensures texts(r@) == core_buffers(*self) { unimplemented!() }
    #[verifier::external_body]
    fn views(&self) -> (r: Vec<String>) ensures texts(r@) == core_views(*self) { unimplemented!() }
    #[verifier::external_body]
    fn cwd(&self) -> (r: VxPath) ensures r == core_cwd(*self) { unimplemented!() }
    /// get_notifier().notify(id, Menu::new(m))
    #[verifier::external_body]
    fn vx_notify_menu(&mut self, id: usize, m: VxShownMenu)
        ensures *final(self) == core_told(*old(self), id, m), core_clients(*final(self)) == core_clients(*old(self))
    { unimplemented!() }
}
// ---- the menus ----------------------------------------------------------------------
/// an entry with that key, label and description, whose action has that name
spec fn entry(e: MenuEntry, key: Seq<char>, label: Seq<char>, about: Option<Seq<char>>, act: Seq<char>) -> bool {
    &&& e.key@ == key && e.label@ == label && named(e.action) == act
    &&& match e.description { Some(d) => about == Some(d@), None => about is None }
}
/// one entry for each of the texts, in their order
spec fn for_each(v: Seq<MenuEntry>, of: Seq<Seq<char>>, act: Seq<char>) -> bool {
    &&& v.len() == of.len()
    &&& forall|i: int| 0 <= i < v.len() ==> entry(#[trigger] v[i], of[i], of[i], None, act)
}
/// the menu of commands
spec fn commands_listed(v: Seq<MenuEntry>) -> bool {
    &&& v.len() == 8
    &&& entry(v[0], "open"@, "Open file"@, Some("Open and read a new file."@), "submenu"@)
    &&& entry(v[1], "quit"@, "Quit"@, Some("Quit the current client."@), "/quit"@)
    &&& entry(v[2], "scratch"@, "New scratch"@, Some("Create a new scratch buffer."@), "submenu"@)
    &&& entry(v[3], "view_select"@, "Change view"@, Some("Select an existing view or create a new one."@), "submenu"@)
    &&& entry(v[4], "view_delete"@, "Delete view"@, Some("Delete the current view."@), "/view_delete"@)
    &&& entry(v[5], "view_add"@, "Add to view"@, Some("Add another buffer to the current view."@), "submenu"@)
    &&& entry(v[6], "view_remove"@, "Remove from the view."@, Some("Remove a buffer from the current view."@), "submenu"@)
    &&& entry(v[7], "exec"@, "Execute script."@, Some("Execute the lua script source."@), "submenu"@)
}
/// the paths of the files below a directory
uninterp spec fn files(dir: VxPath) -> Seq<Seq<char>>;
/// the key of the view with that buffer alone
uninterp spec fn key_of(buffer: Seq<char>) -> Seq<char>;
/// the buffers that have no view of their own
spec fn alone(buffers: Seq<Seq<char>>, views: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases buffers.len()
{
    if buffers.len() == 0 { seq![] }
    else if views.contains(key_of(buffers.last())) { alone(buffers.drop_last(), views) }
    else { alone(buffers.drop_last(), views).push(buffers.last()) }
}
/// what a menu offers
spec fn offers(v: Seq<MenuEntry>, menu: Seq<char>, cwd: VxPath, buffers: Seq<Seq<char>>, views: Seq<Seq<char>>) -> bool {
    if menu == ""@ { commands_listed(v) }
    else if menu == "open"@ { for_each(v, files(cwd), "open/"@) }
    else if menu == "view_select"@ { for_each(v, views + alone(buffers, views), "view_select/"@) }
    else if menu == "view_add"@ { for_each(v, buffers, "view_add/"@) }
    else if menu == "view_remove"@ { for_each(v, buffers, "view_remove/"@) }
    else { false }
}
spec fn is_menu(k: Seq<char>) -> bool {
    k == ""@ || k == "open"@ || k == "view_select"@ || k == "view_add"@ || k == "view_remove"@
}
/// the two menus that ask for a text
spec fn asks(k: Seq<char>) -> bool { k == "scratch"@ || k == "exec"@ }
/// the entry of a menu that asks
spec fn asked(v: Seq<MenuEntry>, message: Seq<char>, act: Seq<char>) -> bool {
    v.len() == 1 && entry(v[0], ""@, message, None, act)
}
/// what the source of a menu offers
spec fn sourced(v: Seq<MenuEntry>, s: Source, cwd: VxPath, buffers: Seq<Seq<char>>, views: Seq<Seq<char>>) -> bool {
    match s {
        Source::Prompt(message, act) => asked(v, message@, named(act)),
        Source::Provider(p) => offers(v, provides(p), cwd, buffers, views),
    }
}
spec fn title_of(k: Seq<char>) -> Seq<char> {
    if k == ""@ { "command"@ } else if k == "open"@ { "file"@ } else if k == "scratch"@ { "scratch"@ }
    else if k == "view_select"@ { "view"@ } else if k == "exec"@ { "lua"@ } else { "buffer"@ }
}
/// a menu as default_commands makes it, apart from its entries
spec fn made_as(k: Seq<char>, m: Menu) -> bool {
    &&& m.command@ == k && m.title@ == title_of(k)
    &&& match m.source {
        Source::Prompt(message, act) => asks(k) && named(act) == k
            && message@ == (if k == "exec"@ { "Lua script source."@ } else { "New scratch buffer name."@ }),
        Source::Provider(p) => is_menu(k) && provides(p) == k,
    }
}
/// its entries are what its source offered, once, or none
spec fn entries_fine(m: Menu) -> bool {
    m.entries@.len() == 0 || exists|cwd: VxPath, buffers: Seq<Seq<char>>, views: Seq<Seq<char>>| #[trigger] sourced(m.entries@, m.source, cwd, buffers, views)
}
/// the editor's menus
spec fn menus(c: Map<Seq<char>, Menu>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] c.contains_key(k) <==> is_menu(k) || asks(k)
    &&& forall|k: Seq<char>| #[trigger] c.contains_key(k) ==> made_as(k, c[k]) && entries_fine(c[k])
}
/// the menu was filled anew and sent to the client, and to it alone
spec fn opened(a: Editor, b: Editor, id: usize, k: Seq<char>, search: Seq<char>) -> bool {
    let m = a.command_map.m()[k];
    let n = b.command_map.m()[k];
    &&& b.command_map.m() == a.command_map.m().insert(k, n)
    &&& n.command == m.command && n.title == m.title && n.source == m.source
    &&& if search == ""@ { sourced(n.entries@, n.source, core_cwd(a.core), core_buffers(a.core), core_views(a.core)) } else { n.entries == m.entries }
    &&& b.core == core_told(a.core, id, shown(n, search))
    &&& a.session_name == b.session_name && a.stopped_clients == b.stopped_clients && a.lua == b.lua
}
spec fn on_its_core(a: Editor, b: Editor, o: (Core, bool), r: Result<(), Error>, code: int) -> bool {
    b.core == o.0 && (r is Ok) == o.1 && (r is Err ==> r->Err_0.code == code) && core_only(a, b)
}
/// what an action does for the client that chose
spec fn acts(a: Editor, b: Editor, name: Seq<char>, key: Seq<char>, id: usize, r: Result<(), Error>) -> bool {
    if name == "submenu"@ { r is Ok && opened(a, b, id, key, ""@) }
    else if name == "/quit"@ {
        r is Ok && b.core == core_remove_client(a.core, id) && b.stopped_clients@ == a.stopped_clients@.insert(id)
            && b.session_name == a.session_name && b.command_map == a.command_map && b.lua == a.lua
    }
    else if name == "/view_delete"@ { r is Ok && b.core == core_view_delete(a.core, id) && core_only(a, b) }
    else if name == "open/"@ { on_its_core(a, b, core_edit(a.core, id, key, false), r, -32602) }
    else if name == "scratch"@ { on_its_core(a, b, core_edit(a.core, id, key, true), r, -32602) }
    else if name == "view_select/"@ { on_its_core(a, b, core_view(a.core, id, key), r, -32600) }
    else if name == "view_add/"@ { on_its_core(a, b, core_view_add(a.core, id, key), r, -32600) }
    else if name == "view_remove/"@ { on_its_core(a, b, core_view_remove(a.core, id, key), r, -32600) }
    else if name == "exec"@ { (b, r) == exec_outcome(a, id, key) && b.command_map == a.command_map }
    else { false }
}
spec fn an_action(name: Seq<char>) -> bool {
    name == "/quit"@ || name == "/view_delete"@ || name == "open/"@ || name == "scratch"@ || name == "view_select/"@
        || name == "view_add/"@ || name == "view_remove/"@ || name == "exec"@
}
/// a call through the pointer is a call of the closure with that name, which is one of the functions below
#[verifier::external_body]
fn vx_act(action: MenuAction, key: &str, editor: &mut Editor, client_id: usize) -> (r: Result<(), Error>)
    requires
        known_clients(*old(editor)).contains(client_id),
        an_action(named(action)) || named(action) == "submenu"@ && old(editor).command_map.m().contains_key(key@),
    ensures acts(*old(editor), *final(editor), named(action), key@, client_id, r), stays_or_quits(*old(editor), *final(editor), client_id)
{ unimplemented!() }
#[verifier::external_body]
fn vx_provide(provider: &EntryProvider, info: &EditorInfo) -> (r: Vec<MenuEntry>)
    requires is_menu(provides(*provider))
    ensures offers(r@, provides(*provider), *info.cwd, texts(info.buffers@), texts(info.views@))
{ unimplemented!() }
/// the first entry with that key
spec fn first_at(es: Seq<MenuEntry>, key: Seq<char>, e: MenuEntry, i: int) -> bool {
    0 <= i < es.len() && es[i] == e && e.key@ == key && (forall|j: int| 0 <= j < i ==> (#[trigger] es[j]).key@ != key)
}
spec fn at_entry(es: Seq<MenuEntry>, key: Seq<char>, e: &MenuEntry, i: int) -> bool { first_at(es, key, *e, i) }
spec fn found(es: Seq<MenuEntry>, key: Seq<char>, r: Option<&MenuEntry>) -> bool {
    match r {
        Some(e) => exists|i: int| #[trigger] first_at(es, key, *e, i),
        None => forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).key@ != key,
    }
}
//@ source core/src/editor/menu.rs
//@ fn Menu::new
    ensures result.command@ == command@, result.title@ == title@, result.source == Source::Provider(provider), result.entries@.len() == 0
//@ fn Menu::prompt
    ensures
        result.command@ == command@, result.title@ == title@, result.entries@.len() == 0,
        result.source matches Source::Prompt(m, a) && m@ == message@ && a == action,
//@ fn Menu::is_prompt
    ensures result == (self.source is Prompt)
//@ fn Menu::populate
    requires old(self).source matches Source::Provider(p) ==> is_menu(provides(p))
    ensures
        sourced(final(self).entries@, old(self).source, *info.cwd, texts(info.buffers@), texts(info.views@)),
        final(self).source == old(self).source, final(self).command == old(self).command, final(self).title == old(self).title,
//@ entry
    proof { reveal_strlit(""); }
//@ exit
    proof { if let Source::Prompt(m, a) = old(self).source { assert(self.entries@[0].key@ =~= ""@); } }
//@ fn Menu::get
//@ rewrite $x . key == key => vx_same (& $x . key , key)
    ensures found(self.entries@, key@, result)
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant_except_break vx_it0@ == src.skip(k), vx_acc0 is None
    invariant 0 <= k <= src.len(), src.len() == self.entries@.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == self.entries@[i],
        forall|j: int| 0 <= j < k ==> (#[trigger] self.entries@[j]).key@ != key@,
    ensures match vx_acc0 { Some(e) => at_entry(self.entries@, key@, e, k), None => k == src.len() }
    decreases src.len() - k
//@ loop 0 end
    proof { k = k + 1; }
//@ loop 0 after
    proof { if vx_acc0 is Some { assert(at_entry(self.entries@, key@, vx_acc0->0, k) && first_at(self.entries@, key@, *vx_acc0->0, k)); } }
//@ verus
/// what a request for a menu does: the menu is filled when nothing is searched for, and sent to the client that asked
spec fn menu_done(a: Editor, b: Editor, id: usize, p: MenuParams, r: Result<(), Error>) -> bool {
    if a.command_map.m().contains_key(p.command@) { r is Ok && opened(a, b, id, p.command@, p.search@) }
    else { r is Err && r->Err_0.code == -32602 && same_editor(a, b) }
}
//@ source core/src/editor/mod.rs
//@ fn Editor::cwd
    ensures result == core_cwd(self.core)
//@ fn Editor::command_menu
    requires known_clients(*old(self)).contains(client_id), menus(old(self).command_map.m())
    ensures
        known_clients(*final(self)) == known_clients(*old(self)), menus(final(self).command_map.m()),
        menu_done(*old(self), *final(self), client_id, *params, result),
//@ entry
    proof { reveal_strlit(""); assert(params.search@.len() == 0 ==> params.search@ =~= ""@); }
//@ verus
spec fn no_entry(es: Seq<MenuEntry>, key: Seq<char>) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).key@ != key }
spec fn has_first(es: Seq<MenuEntry>, key: Seq<char>, e: MenuEntry) -> bool { exists|i: int| first_at(es, key, e, i) }
/// the entry for that choice; a menu that asks takes any text
spec fn choice_is(m: Menu, choice: Seq<char>, e: MenuEntry) -> bool {
    has_first(m.entries@, choice, e) || (no_entry(m.entries@, choice) && m.source is Prompt && has_first(m.entries@, ""@, e))
}
spec fn no_choice(m: Menu, choice: Seq<char>) -> bool {
    no_entry(m.entries@, choice) && (m.source is Prompt ==> no_entry(m.entries@, ""@))
}
spec fn same_editor(a: Editor, b: Editor) -> bool {
    b.command_map.m() == a.command_map.m() && b.core == a.core && b.session_name == a.session_name
        && b.stopped_clients == a.stopped_clients && b.lua == a.lua
}
spec fn chose(a: Editor, b: Editor, choice: Seq<char>, id: usize, r: Result<(), Error>, e: MenuEntry, m: Menu) -> bool {
    choice_is(m, choice, e) && acts(a, b, named(e.action), choice, id, r)
}
/// what a choice does: what the chosen entry says, for the client that chose
spec fn select_done(a: Editor, b: Editor, id: usize, p: MenuSelectParams, r: Result<(), Error>) -> bool {
    let m = a.command_map.m()[p.command@];
    if !a.command_map.m().contains_key(p.command@) || no_choice(m, p.choice@) { r is Err && r->Err_0.code == -32602 && same_editor(a, b) }
    else { exists|e: MenuEntry| #[trigger] chose(a, b, p.choice@, id, r, e, m) }
}
proof fn lemma_allowed(c: Map<Seq<char>, Menu>, k: Seq<char>, choice: Seq<char>, e: MenuEntry)
    requires menus(c), c.contains_key(k), choice_is(c[k], choice, e)
    ensures an_action(named(e.action)) || named(e.action) == "submenu"@ && c.contains_key(choice)
{
    let m = c[k];
    assert(made_as(k, m) && entries_fine(m));
    let (cwd, buffers, views) = choose|cwd: VxPath, buffers: Seq<Seq<char>>, views: Seq<Seq<char>>| #[trigger] sourced(m.entries@, m.source, cwd, buffers, views);
    let key = if has_first(m.entries@, choice, e) { choice } else { ""@ };
    let i = choose|i: int| first_at(m.entries@, key, e, i);
    assert(m.entries@[i] == e);
    if m.source is Provider { assert(has_first(m.entries@, choice, e)); }
}
proof fn lemma_menus(a: Editor, b: Editor, name: Seq<char>, key: Seq<char>, id: usize, r: Result<(), Error>)
    requires menus(a.command_map.m()), acts(a, b, name, key, id, r), name == "submenu"@ ==> a.command_map.m().contains_key(key)
    ensures menus(b.command_map.m())
{
    if name == "submenu"@ {
        let n = b.command_map.m()[key];
        assert(sourced(n.entries@, n.source, core_cwd(a.core), core_buffers(a.core), core_views(a.core)));
        assert(made_as(key, a.command_map.m()[key]));
    }
}
//@ source core/src/editor/mod.rs
//@ fn Editor::command_menu_select
//@ rewrite (action) ($$a , self , $c) => vx_act (action , $$a , self , $c)
    requires known_clients(*old(self)).contains(client_id), menus(old(self).command_map.m())
    ensures
        stays_or_quits(*old(self), *final(self), client_id), menus(final(self).command_map.m()),
        select_done(*old(self), *final(self), client_id, *params, result),
//@ before let action = $$a ;
    let ghost m = *menu;
    let ghost e = *entry->0;
    proof { lemma_allowed(self.command_map.m(), params.command@, params.choice@, e); assert(choice_is(m, params.choice@, e)); }
//@ exit
    proof {
        assert(chose(*old(self), *self, params.choice@, client_id, vx_ret, e, m));
        lemma_names();
        lemma_menus(*old(self), *self, named(e.action), params.choice@, client_id, vx_ret);
    }
//@ source core/src/editor/command.rs
//@ fn submenu_action
    requires known_clients(*old(editor)).contains(client_id), menus(old(editor).command_map.m()), old(editor).command_map.m().contains_key(key@)
    ensures
        acts(*old(editor), *final(editor), "submenu"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id),
        menus(final(editor).command_map.m()),
//@ verus
/// the names differ
proof fn lemma_names()
    ensures
        "submenu"@ != "/quit"@,
        "submenu"@ != "/view_delete"@,
        "submenu"@ != "open/"@,
        "submenu"@ != "scratch"@,
        "submenu"@ != "view_select/"@,
        "submenu"@ != "view_add/"@,
        "submenu"@ != "view_remove/"@,
        "submenu"@ != "exec"@,
        "/quit"@ != "/view_delete"@,
        "/quit"@ != "open/"@,
        "/quit"@ != "scratch"@,
        "/quit"@ != "view_select/"@,
        "/quit"@ != "view_add/"@,
        "/quit"@ != "view_remove/"@,
        "/quit"@ != "exec"@,
        "/view_delete"@ != "open/"@,
        "/view_delete"@ != "scratch"@,
        "/view_delete"@ != "view_select/"@,
        "/view_delete"@ != "view_add/"@,
        "/view_delete"@ != "view_remove/"@,
        "/view_delete"@ != "exec"@,
        "open/"@ != "scratch"@,
        "open/"@ != "view_select/"@,
        "open/"@ != "view_add/"@,
        "open/"@ != "view_remove/"@,
        "open/"@ != "exec"@,
        "scratch"@ != "view_select/"@,
        "scratch"@ != "view_add/"@,
        "scratch"@ != "view_remove/"@,
        "scratch"@ != "exec"@,
        "view_select/"@ != "view_add/"@,
        "view_select/"@ != "view_remove/"@,
        "view_select/"@ != "exec"@,
        "view_add/"@ != "view_remove/"@,
        "view_add/"@ != "exec"@,
        "view_remove/"@ != "exec"@,
{
    reveal_strlit("submenu"); assert("submenu"@.len() == 7);
    reveal_strlit("/quit"); assert("/quit"@.len() == 5);
    reveal_strlit("/view_delete"); assert("/view_delete"@.len() == 12);
    reveal_strlit("open/"); assert("open/"@.len() == 5);
    reveal_strlit("scratch"); assert("scratch"@.len() == 7);
    reveal_strlit("view_select/"); assert("view_select/"@.len() == 12);
    reveal_strlit("view_add/"); assert("view_add/"@.len() == 9);
    reveal_strlit("view_remove/"); assert("view_remove/"@.len() == 12);
    reveal_strlit("exec"); assert("exec"@.len() == 4);
    assert("submenu"@[1] != "scratch"@[1]);
    assert("/quit"@[0] != "open/"@[0]);
    assert("/view_delete"@[0] != "view_select/"@[0]);
    assert("/view_delete"@[0] != "view_remove/"@[0]);
    assert("view_select/"@[5] != "view_remove/"@[5]);
}
//@ fn act_quit closure:/quit in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "/quit"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn act_view_delete closure:/view_delete in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "/view_delete"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn act_open closure:open/ in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "open/"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn act_scratch closure:scratch in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "scratch"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn act_view_select closure:view_select/ in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "view_select/"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn act_view_add closure:view_add/ in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "view_add/"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn act_view_remove closure:view_remove/ in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "view_remove/"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn act_exec closure:exec in:default_commands args:key:&str,editor:&mut_Editor,client_id:usize gives:Result<(),Error>
    requires known_clients(*old(editor)).contains(client_id)
    ensures acts(*old(editor), *final(editor), "exec"@, key@, client_id, result), stays_or_quits(*old(editor), *final(editor), client_id)
//@ entry
    proof { lemma_names(); }
//@ fn offer_commands closure: in:default_commands args:info:&EditorInfo gives:Vec<MenuEntry>
    ensures offers(result@, ""@, *info.cwd, texts(info.buffers@), texts(info.views@))
//@ fn offer_view_add closure:view_add in:default_commands args:info:&EditorInfo gives:Vec<MenuEntry>
//@ collect 0 Vec<MenuEntry>
    ensures offers(result@, "view_add"@, *info.cwd, texts(info.buffers@), texts(info.views@))
//@ entry
    proof { lemma_kinds(); }
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), src.len() == info.buffers@.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == info.buffers@[i],
        vx_acc0@.len() == k, forall|i: int| 0 <= i < k ==> entry(#[trigger] vx_acc0@[i], info.buffers@[i]@, info.buffers@[i]@, None, "view_add/"@),
    ensures k == src.len()
    decreases src.len() - k
//@ loop 0 end
    proof { k = k + 1; }
//@ fn offer_view_remove closure:view_remove in:default_commands args:info:&EditorInfo gives:Vec<MenuEntry>
//@ collect 0 Vec<MenuEntry>
    ensures offers(result@, "view_remove"@, *info.cwd, texts(info.buffers@), texts(info.views@))
//@ entry
    proof { lemma_kinds(); }
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), src.len() == info.buffers@.len(), forall|i: int| 0 <= i < src.len() ==> *(#[trigger] src[i]) == info.buffers@[i],
        vx_acc0@.len() == k, forall|i: int| 0 <= i < k ==> entry(#[trigger] vx_acc0@[i], info.buffers@[i]@, info.buffers@[i]@, None, "view_remove/"@),
    ensures k == src.len()
    decreases src.len() - k
//@ loop 0 end
    proof { k = k + 1; }
//@ verus
proof fn lemma_kinds()
    ensures
        ""@ != "open"@,
        ""@ != "scratch"@,
        ""@ != "view_select"@,
        ""@ != "view_add"@,
        ""@ != "view_remove"@,
        ""@ != "exec"@,
        "open"@ != "scratch"@,
        "open"@ != "view_select"@,
        "open"@ != "view_add"@,
        "open"@ != "view_remove"@,
        "open"@ != "exec"@,
        "scratch"@ != "view_select"@,
        "scratch"@ != "view_add"@,
        "scratch"@ != "view_remove"@,
        "scratch"@ != "exec"@,
        "view_select"@ != "view_add"@,
        "view_select"@ != "view_remove"@,
        "view_select"@ != "exec"@,
        "view_add"@ != "view_remove"@,
        "view_add"@ != "exec"@,
        "view_remove"@ != "exec"@,
{
    reveal_strlit(""); assert(""@.len() == 0);
    reveal_strlit("open"); assert("open"@.len() == 4);
    reveal_strlit("scratch"); assert("scratch"@.len() == 7);
    reveal_strlit("view_select"); assert("view_select"@.len() == 11);
    reveal_strlit("view_add"); assert("view_add"@.len() == 8);
    reveal_strlit("view_remove"); assert("view_remove"@.len() == 11);
    reveal_strlit("exec"); assert("exec"@.len() == 4);
    assert("open"@[0] != "exec"@[0]);
    assert("view_select"@[5] != "view_remove"@[5]);
}
//@ fn default_commands named
    ensures menus(result.m()), forall|k: Seq<char>| #[trigger] result.m().contains_key(k) ==> result.m()[k].entries@.len() == 0
//@ entry
    proof { lemma_kinds(); }
//@ verus
/// View::for_buffer(b).key()
#[verifier::external_body]
fn vx_key_of(b: &String) -> (r: String)
    ensures r@ == key_of(b@)
{ unimplemented!() }
/// *x == View::for_buffer(b).key()
fn vx_is_key_of(x: &String, b: &String) -> (r: bool)
    ensures r == (x@ == key_of(b@))
{ let k = vx_key_of(b); let r = vx_same(x, &k); r }
/// a.chain(b)
fn vx_joined<'a>(a: Vec<&'a String>, b: Vec<&'a String>) -> (r: Vec<&'a String>)
    ensures r@ == a@ + b@
{ let mut v = a; let mut w = b; v.append(&mut w); v }
/// the texts are these
spec fn refs(v: Seq<&String>) -> Seq<Seq<char>> { v.map_values(|s: &String| s@) }
//@ fn offer_view_select closure:view_select in:default_commands args:info:&EditorInfo gives:Vec<MenuEntry> #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ rewrite info . views . iter () . chain ($$b) . map => vx_joined (info . views . iter () . collect :: < Vec < & String > > () , $$b . collect :: < Vec < & String > > ()) . into_iter () . map
//@ rewrite * $x == View :: for_buffer ($b) . key () => vx_is_key_of ($x , $b)
    ensures offers(result@, "view_select"@, *info.cwd, texts(info.buffers@), texts(info.views@))
//@ entry
    proof { lemma_kinds(); }
//@ loop 1 before
    let ghost bs = vx_it1@;
    let ghost vs = texts(info.views@);
    let ghost mut n = 0int;
    proof { assert(refs(vx_acc1@) =~= alone(texts(info.buffers@).take(0), vs)); }
//@ loop 1
    invariant 0 <= n <= bs.len(), vx_it1@ == bs.skip(n), bs.len() == info.buffers@.len(), forall|i: int| 0 <= i < bs.len() ==> *(#[trigger] bs[i]) == info.buffers@[i],
        vs == texts(info.views@), refs(vx_acc1@) == alone(texts(info.buffers@).take(n), vs),
    ensures n == bs.len()
    decreases bs.len() - n
//@ loop 1 end
    proof {
        let bt = texts(info.buffers@).take(n + 1);
        assert(bt.drop_last() =~= texts(info.buffers@).take(n));
        assert(bt.last() == info.buffers@[n]@);
        assert(refs(vx_acc1@) =~= alone(bt, vs));
        n = n + 1;
    }
//@ loop 1 after
    proof { assert(texts(info.buffers@).take(n) =~= texts(info.buffers@)); }
//@ loop 2 before
    let ghost ws = vx_it2@;
    let ghost mut j = 0int;
    let ghost it = vx_el1@;
//@ loop 2
    invariant_except_break vx_it2@ == ws.skip(j), vx_acc2 is None
    invariant 0 <= j <= ws.len(), ws.len() == info.views@.len(), vs == texts(info.views@), it == vx_el1@, forall|i: int| 0 <= i < ws.len() ==> *(#[trigger] ws[i]) == info.views@[i],
        forall|i: int| 0 <= i < j ==> #[trigger] vs[i] != key_of(it),
    ensures vx_acc2 is Some <==> vs.contains(key_of(it))
    decreases ws.len() - j
//@ loop 2 entry
    proof { if j < ws.len() { assert(vs[j] == ws[j]@); } }
//@ loop 2 end
    proof { assert(vx_el2@ == vs[j]); assert(!vx_c); assert(vx_el2@ != key_of(vx_el1@)); j = j + 1; }
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k = 0int;
    let ghost all = texts(info.views@) + alone(texts(info.buffers@), texts(info.views@));
    proof { assert(refs(src) =~= all); }
//@ loop 0
    invariant 0 <= k <= src.len(), vx_it0@ == src.skip(k), refs(src) == all, all.len() == src.len(),
        vx_acc0@.len() == k, forall|i: int| 0 <= i < k ==> entry(#[trigger] vx_acc0@[i], all[i], all[i], None, "view_select/"@),
    ensures k == src.len()
    decreases src.len() - k
//@ loop 0 entry
    proof { if k < src.len() { assert(refs(src)[k] == src[k]@); } }
//@ loop 0 end
    proof { k = k + 1; }
//@ source core/src/editor/mod.rs
//@ include handle.vrs
