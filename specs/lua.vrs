//@ source core/src/editor/core.rs
//@ verus
// ---- trusted: the binding to Lua ----------------------------------------------------
#[verifier::external_body]
struct LuaContext { _p: u8 }
#[verifier::external_body]
struct LuaError { _p: u8 }
trait VxExternal<T> {
    fn vx_external(self) -> (r: Result<T, LuaError>);
}
impl<T> VxExternal<T> for Result<T, Error> {
    #[verifier::external_body]
    fn vx_external(self) -> (r: Result<T, LuaError>)
        ensures match self { Ok(v) => r == Ok::<T, LuaError>(v), Err(_) => r is Err }
    { unimplemented!() }
}
// ---- the requests of scripts: closures registered in add_methods ------------------------
//@ fn Core::lua_debug handler:debug in:UserData@Core::add_methods args:String
    requires old(this).state.ok()
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(), final(this).state.same_but(old(this).state, BUFFER_DEBUG@),
//@ if texts
        final(this).state.cwd == old(this).state.cwd,
        but(old(this).state, final(this).state, BUFFER_DEBUG@), grew(old(this).state, final(this).state, BUFFER_DEBUG@),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_message handler:message in:UserData@Core::add_methods args:(usize,String)
//@ rewrite this . message ($a , $$r) => this . message (Some ($a) , $$r)
    requires old(this).state.ok()
    ensures
//@ if tell
        put(old(this).state, final(this).state, "*messages*"@, noted(Some(vx_args.0), vx_args.1@)),
        final(this).notifier.said() == old(this).notifier.said().push(Said::Message(Some(vx_args.0), vx_args.1@)),
//@ end
        result is Ok, final(this).state.ok(), final(this).state.same_but(old(this).state, "*messages*"@),
//@ if texts
        final(this).state.cwd == old(this).state.cwd,
        but(old(this).state, final(this).state, "*messages*"@), grew(old(this).state, final(this).state, "*messages*"@),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_error handler:error in:UserData@Core::add_methods args:(usize,String)
//@ rewrite this . error ($a , $$r) => this . error (Some ($a) , $$r)
    requires old(this).state.ok()
    ensures
//@ if tell
        put(old(this).state, final(this).state, "*errors*"@, noted(Some(vx_args.0), tagged("lua"@, vx_args.1@))),
        final(this).notifier.said() == old(this).notifier.said().push(Said::Error(Some(vx_args.0), on_one_line(tagged("lua"@, vx_args.1@)))),
//@ end
        result is Ok, final(this).state.ok(), final(this).state.same_but(old(this).state, "*errors*"@),
//@ if texts
        final(this).state.cwd == old(this).state.cwd,
        but(old(this).state, final(this).state, "*errors*"@), grew(old(this).state, final(this).state, "*errors*"@),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_append_to handler:append_to in:UserData@Core::add_methods args:(String,String)
    requires old(this).state.ok()
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(), final(this).state.same_but(old(this).state, vx_args.0@),
//@ if texts
        final(this).state.cwd == old(this).state.cwd,
        put(old(this).state, final(this).state, vx_args.0@, vx_args.1@), but(old(this).state, final(this).state, vx_args.0@), grew(old(this).state, final(this).state, vx_args.0@),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_left handler:move_left in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::Left, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_right handler:move_right in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::Right, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_up handler:move_up in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::Up, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_down handler:move_down in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::Down, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_to_line_begin handler:move_to_line_begin in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::LineBegin, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_to_line_end handler:move_to_line_end in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::LineEnd, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_to_begin handler:move_to_begin in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::Begin, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_move_to_end handler:move_to_end in:UserData@Core::add_methods args:(usize,bool)
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args.0)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
//@ if sels
        cursor_moved(old(this).state, final(this).state, vx_args.0, CursorTarget::End, vx_args.1),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_delete_selection handler:delete_selection in:UserData@Core::add_methods args:usize gives:Result<Vec<String>,LuaError>
    requires old(this).state.ok(), old(this).state.clients.ids().contains_key(vx_args)
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok, final(this).state.ok(),
        selection_deleted(old(this).state, final(this).state, vx_args),
//@ if sels
        forall|i: int| 0 <= i < result->Ok_0@.len() ==> was_cut(old(this).state.buffers, old(this).state.clients.ids()[vx_args].selections.m()[vkey(old(this).state.clients.ids()[vx_args].view)].m(), (#[trigger] result->Ok_0@[i])@),
        forall|n: Seq<char>| #[trigger] cut_from(old(this).state, vx_args, n) ==> handed(old(this).state.buffers, old(this).state.clients.ids()[vx_args].selections.m()[vkey(old(this).state.clients.ids()[vx_args].view)].m(), n, result->Ok_0@),
//@ end
//@ if pics
        keeps(*old(this), *final(this)),
//@ end
//@ fn Core::lua_edit handler:edit in:UserData@Core::add_methods args:(usize,String,bool)
//@ rewrite . map_err (rlua :: Error :: external) => . vx_external ()
    requires old(this).state.ok(), old(this).state.has_view(), old(this).state.clients.ids().contains_key(vx_args.0),
        old(this).state.buffers.m().contains_key(vx_args.1@) ==> old(this).state.buffers.m()[vx_args.1@].readable(),
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Err ==> final(this).state == old(this).state,
        vx_args.2 || old(this).state.buffers.m().contains_key(vx_args.1@) ==> result is Ok,
        final(this).state.ok(), final(this).state.has_view(),
        final(this).state.clients.ids().dom() == old(this).state.clients.ids().dom(),
//@ if looks
        result is Ok ==> vset(final(this).state.clients.ids()[vx_args.0].view) == set![vx_args.1@],
//@ end
//@ if texts
        forall|n: Seq<char>| #[trigger] old(this).state.buffers.m().contains_key(n) ==> final(this).state.buffers.m().contains_key(n),
//@ end
//@ if sels
        result is Ok && vx_args.1@ != BUFFER_DEBUG@ ==> if old(this).state.buffers.m().contains_key(vx_args.1@) && !vx_args.2 { sels_refit(old(this).state, final(this).state, vx_args.1@) } else { sels_stay(old(this).state, final(this).state) },
//@ end
//@ if looks
        result is Ok ==> exists|v: View| only(v, vx_args.1@) && #[trigger] turned_latest(old(this).state, final(this).state, vx_args.0, vkey(v)),
//@ end
//@ if texts
        result is Ok && vx_args.1@ != BUFFER_DEBUG@ ==> edited(old(this).state, final(this).state, vx_args.1@, vx_args.2),
        forall|n: Seq<char>| n != vx_args.1@ && n != BUFFER_DEBUG@ ==> (#[trigger] final(this).state.buffers.m().contains_key(n) <==> old(this).state.buffers.m().contains_key(n))
            && (old(this).state.buffers.m().contains_key(n) ==> final(this).state.buffers.m()[n] == old(this).state.buffers.m()[n]),
//@ end
//@ if pics
        result is Err ==> final(this).notifier == old(this).notifier,
        keeps(*old(this), *final(this)), result is Ok ==> final(this).current(vx_args.0),
//@ end
//@ fn Core::lua_scratch handler:scratch in:UserData@Core::add_methods args:(usize,String,String)
//@ rewrite . map_err (rlua :: Error :: external) => . vx_external ()
    requires old(this).state.ok(), old(this).state.has_view(), old(this).state.clients.ids().contains_key(vx_args.0),
    ensures
//@ if tell
        final(this).notifier == old(this).notifier,
//@ end
        result is Ok,
        final(this).state.ok(), final(this).state.has_view(),
        final(this).state.clients.ids().dom() == old(this).state.clients.ids().dom(),
//@ if looks
        result is Ok ==> vset(final(this).state.clients.ids()[vx_args.0].view) == set![vx_args.1@],
//@ end
//@ if texts
        forall|n: Seq<char>| #[trigger] old(this).state.buffers.m().contains_key(n) ==> final(this).state.buffers.m().contains_key(n),
//@ end
//@ if sels
        vx_args.1@ != BUFFER_DEBUG@ ==> sels_refit(old(this).state, final(this).state, vx_args.1@),
//@ end
//@ if looks
        exists|v: View| only(v, vx_args.1@) && #[trigger] turned_latest(old(this).state, final(this).state, vx_args.0, vkey(v)),
//@ end
//@ if texts
        vx_args.1@ != BUFFER_DEBUG@ ==> text_of(final(this).state.buffers, vx_args.1@) == from_text(vx_args.2@) && final(this).state.buffers.m()[vx_args.1@].source is Scratch,
        forall|n: Seq<char>| n != vx_args.1@ && n != BUFFER_DEBUG@ ==> (#[trigger] final(this).state.buffers.m().contains_key(n) <==> old(this).state.buffers.m().contains_key(n))
            && (old(this).state.buffers.m().contains_key(n) ==> final(this).state.buffers.m()[n] == old(this).state.buffers.m()[n]),
//@ end
//@ if pics
        keeps(*old(this), *final(this)), final(this).current(vx_args.0),
//@ end
//@ after this . open_scratch
    let ghost c1 = *this;
    let ghost b1 = choose|b: Buffer| scratched(s0, this.state, name@, b);
    proof {
        lemma_scratched(s0, this.state, name@, b1, none(), none(), none());
        assert(none().remove(name@) =~= none());
    }
//@ if pics
    proof { assert(this.notifier == old(this).notifier); }
//@ end
//@ after this . notify_view_update
    let ghost c2 = *this;
//@ if pics
    proof {
        assert forall|x: usize| #[trigger] this.state.clients.ids().contains_key(x) && old(this).current(x) implies this.current(x) by {
            assert(s0.clients.ids().contains_key(x) && c1.state.clients.ids().contains_key(x));
            if !this.current(x) {
                assert(told_same(c1.notifier, this.notifier, x));
                lemma_unseen(*old(this), *this, x, name@);
            }
        }
    }
//@ end
//@ entry
    let ghost s0 = this.state;
//@ exit
    proof {
        assert(c2.state == c1.state);
        assert forall|n: Seq<char>| #[trigger] s0.buffers.m().contains_key(n) implies this.state.buffers.m().contains_key(n) by { assert(c2.state.buffers.m().contains_key(n)); }
    }
//@ if looks
    proof {
        let v = choose|v: View| only(v, name@) && #[trigger] turned_latest(c2.state, this.state, client, vkey(v));
        assert(turned_latest(s0, this.state, client, vkey(v))) by {
            assert(s0.views == c2.state.views);
            assert forall|x: usize| #[trigger] this.state.clients.ids().contains_key(x) implies s0.clients.ids().contains_key(x) && eye(this.state, x) == (if x == client { vkey(v) } else { eye(s0, x) }) by {
                assert(c2.state.clients.ids().contains_key(x));
            }
        }
    }
//@ end
//@ if sels
    proof {
        if name@ != BUFFER_DEBUG@ {
            assert forall|x: usize, k: Seq<char>, n: Seq<char>| this.state.clients.ids().contains_key(x) && #[trigger] this.state.clients.ids()[x].has(k, n) implies s0.clients.ids().contains_key(x) && {
                let (p, q) = (s0.clients.ids()[x], this.state.clients.ids()[x]);
                if n == name@ && p.has(k, n) { list_clamped(p.sels(k, n), q.sels(k, n), text_of(this.state.buffers, n)) } else { got(p, q, k, n, Some(k)) }
            } by {
                assert(c2.state.clients.ids().contains_key(x));
                let (p, m) = (s0.clients.ids()[x], c2.state.clients.ids()[x]);
                assert(ctx_clamped(p, m, name@, b1.content.bytes()));
                assert(p.keys().contains(k) == m.keys().contains(k));
                if p.keys().contains(k) { assert(map_clamped(p.selections.m()[k], m.selections.m()[k], name@, b1.content.bytes())); }
                assert(m.has(k, n) == p.has(k, n));
            }
        }
    }
//@ end
//@ if pics
    proof { assert(keeps(*old(this), c2) && keeps(c2, *this)); }
//@ end
