//@ source core/src/editor/core.rs
//@ struct PositionData
//@ struct SelectionData
//@ fn Core::get_coord
//@ rewrite lock ! (self) . buffers . get (buffer) . map (| $b | $$x) . flatten () => match self . state . buffers . get (buffer) { Some ($b) => $$x , None => None }
    requires self.state.ok()
    ensures
        result is Some <==> self.state.buffers.m().contains_key(buffer@) && (offset == 0 || offset < text_of(self.state.buffers, buffer@).len()),
        result matches Some(p) ==> coord_of(text_of(self.state.buffers, buffer@), p, offset as int),
//@ fn Core::get_selected_text
//@ rewrite $b . selection_range (sel) => vx_range_of ($b , sel)
//@ rewrite state . buffers . get (buffer) . map (| $b | $$x) . flatten () => match state . buffers . get (buffer) { Some ($b) => $$x , None => None }
    requires self.state.ok(), self.state.buffers.m().contains_key(buffer@) ==> sel_in(*sel, text_of(self.state.buffers, buffer@))
    ensures
        result is Some <==> self.state.buffers.m().contains_key(buffer@) && text_of(self.state.buffers, buffer@).len() > 0,
        result matches Some(x) ==> cut_text(text_of(self.state.buffers, buffer@), *sel, x@),
//@ verus
/// what a script is handed
enum LuaV {
    Num(int),
    Text(Seq<char>),
    Table(Map<Seq<char>, LuaV>),
    List(Seq<LuaV>),
}
#[verifier::external_body]
struct LuaTable { _p: u8 }
enum LuaValue { Table(LuaTable), Other }
trait VxLua: Sized {
    spec fn lv(&self) -> LuaV;
}
impl VxLua for usize { spec fn lv(&self) -> LuaV { LuaV::Num(*self as int) } }
impl VxLua for String { spec fn lv(&self) -> LuaV { LuaV::Text(self@) } }
impl VxLua for LuaTable { spec fn lv(&self) -> LuaV { LuaV::Table(self.m()) } }
impl<T: VxLua> VxLua for Vec<T> { spec fn lv(&self) -> LuaV { LuaV::List(Seq::new(self@.len(), |i: int| self@[i].lv())) } }
// the tables their `to_lua` is proved to make
impl VxLua for PositionData { spec fn lv(&self) -> LuaV { LuaV::Table(position_table(self.offset as int, self.pos)) } }
impl VxLua for SelectionData { spec fn lv(&self) -> LuaV { LuaV::Table(selection_table(self.anchor.lv(), self.cursor.lv(), self.text@)) } }
spec fn position_table(offset: int, pos: Coords) -> Map<Seq<char>, LuaV> {
    Map::empty().insert("offset"@, LuaV::Num(offset)).insert("pos"@, LuaV::Table(Map::empty().insert("c"@, LuaV::Num(pos.c as int)).insert("l"@, LuaV::Num(pos.l as int))))
}
spec fn selection_table(anchor: LuaV, cursor: LuaV, text: Seq<char>) -> Map<Seq<char>, LuaV> {
    Map::empty().insert("anchor"@, anchor).insert("cursor"@, cursor).insert("text"@, LuaV::Text(text))
}
impl LuaTable {
    uninterp spec fn m(&self) -> Map<Seq<char>, LuaV>;
    /// a value is handed to Lua as its `to_lua` makes it
    #[verifier::external_body]
    fn set<V: VxLua>(&mut self, k: &str, v: V) -> (r: Result<(), LuaError>)
        ensures r is Ok ==> final(self).m() == old(self).m().insert(k@, v.lv())
    { unimplemented!() }
}
impl LuaContext {
    #[verifier::external_body]
    fn create_table(&self) -> (r: Result<LuaTable, LuaError>)
        ensures r matches Ok(t) ==> t.m() == Map::<Seq<char>, LuaV>::empty()
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_or_empty(o: Option<String>) -> (r: String)
    ensures o matches Some(x) ==> r@ == x@, o is None ==> r@.len() == 0
{ unimplemented!() }
proof fn lemma_lua_names()
    ensures
        "c"@ != "l"@, "offset"@ != "pos"@, "anchor"@ != "cursor"@, "anchor"@ != "text"@, "cursor"@ != "text"@, "view"@ != "selections"@,
{
    reveal_strlit("c"); reveal_strlit("l"); reveal_strlit("offset"); reveal_strlit("pos"); reveal_strlit("anchor"); reveal_strlit("cursor");
    reveal_strlit("text"); reveal_strlit("view"); reveal_strlit("selections");
    assert("c"@[0] != "l"@[0]);
    assert("offset"@[0] != "pos"@[0]);
    assert("anchor"@[0] != "cursor"@[0]);
    assert("anchor"@[0] != "text"@[0]);
    assert("cursor"@[0] != "text"@[0]);
    assert("view"@[0] != "selections"@[0]);
}
/// the selection `s` of text `b` as a script is told it
spec fn sel_told(b: Seq<u8>, s: Selection, v: LuaV) -> bool {
    exists|p: Coords, q: Coords, x: Seq<char>| coord_of(b, p, s.anchor as int) && coord_of(b, q, s.cursor as int)
        && (if b.len() > 0 { cut_text(b, s, x) } else { x.len() == 0 })
        && #[trigger] told_as(v, s, p, q, x)
}
spec fn told_as(v: LuaV, s: Selection, p: Coords, q: Coords, x: Seq<char>) -> bool {
    v == LuaV::Table(selection_table(LuaV::Table(position_table(s.anchor as int, p)), LuaV::Table(position_table(s.cursor as int, q)), x))
}
spec fn list_told(b: Seq<u8>, s: Sels, v: LuaV) -> bool {
    v matches LuaV::List(l) && l.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> sel_told(b, s[i], #[trigger] l[i])
}
spec fn sels_told(bs: HashMap<String, Buffer>, m: Map<Seq<char>, Vec<Selection>>, t: Map<Seq<char>, LuaV>) -> bool {
    t.dom() == m.dom() && forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> list_told(text_of(bs, n), m[n]@, t[n])
}
/// what a script is told about client id
spec fn context_told(s: CoreState, id: usize, t: Map<Seq<char>, LuaV>) -> bool {
    let c = s.clients.ids()[id];
    exists|u: Map<Seq<char>, LuaV>| sels_told(s.buffers, c.selections.m()[vkey(c.view)].m(), u)
        && t == #[trigger] Map::empty().insert("view"@, LuaV::Table(Map::empty().insert("key"@, LuaV::Text(vkey(c.view))))).insert("selections"@, LuaV::Table(u))
}
//@ rewrite rlua :: Result < rlua :: Value < 'lua >> => Result < LuaValue , LuaError >
//@ rewrite rlua :: Context < 'lua > => LuaContext
//@ rewrite rlua :: Value :: Table => LuaValue :: Table
//@ rewrite let $t = lua . create_table () ? ; => let mut $t = lua . create_table () ? ;
//@ fn ToLua<'lua>@PositionData::to_lua as:vx_to_lua
    ensures result matches Ok(v) ==> v matches LuaValue::Table(t) && LuaV::Table(t.m()) == self.lv()
//@ entry
    proof { lemma_lua_names(); }
//@ exit
    proof {
        if vx_ret is Ok {
            let x = vx_ret->Ok_0->Table_0;
            assert(x.m()["pos"@]->Table_0 =~= Map::empty().insert("c"@, LuaV::Num(self.pos.c as int)).insert("l"@, LuaV::Num(self.pos.l as int)));
            assert(x.m() =~= position_table(self.offset as int, self.pos));
        }
    }
//@ fn ToLua<'lua>@SelectionData::to_lua as:vx_to_lua
    ensures result matches Ok(v) ==> v matches LuaValue::Table(t) && LuaV::Table(t.m()) == self.lv()
//@ entry
    proof { lemma_lua_names(); }
//@ exit
    proof {
        if vx_ret is Ok { let x = vx_ret->Ok_0->Table_0; assert(x.m() =~= selection_table(self.anchor.lv(), self.cursor.lv(), self.text@)); }
    }
//@ fn Core::lua_get_context handler:get_context in:UserData@Core::add_methods args:usize gives:Result<LuaTable,LuaError>
//@ rewrite lock ! (this) . clients [$$k] . clone () => vx_copy (this . state . clients . vx_index ($$k))
//@ rewrite for ($k , $v) in sels { $$b } => for vx_k in sels . vx_snapshot () { let $k = & vx_k ; let $v = sels . vx_index ($k) ; $$b }
//@ rewrite this . get_selected_text ($$a) . unwrap_or_default () => vx_or_empty (this . get_selected_text ($$a))
    requires this.state.ok(), this.state.clients.ids().contains_key(vx_args)
    ensures result matches Ok(t) ==> context_told(this.state, vx_args, t.m())
//@ exit
    proof {
        if vx_ret is Ok {
            let x = vx_ret->Ok_0.m();
            let kt = Map::<Seq<char>, LuaV>::empty().insert("key"@, LuaV::Text(k0));
            assert(x =~= Map::empty().insert("view"@, LuaV::Table(kt)).insert("selections"@, LuaV::Table(u)));
        }
    }
//@ entry
    let ghost mut u = Map::<Seq<char>, LuaV>::empty();
    let ghost s0 = this.state;
    let ghost c0 = s0.clients.ids()[vx_args];
    let ghost k0 = vkey(c0.view);
    let ghost m0 = c0.selections.m()[k0].m();
    proof {
        lemma_lua_names();
        assert(s0.views.m().contains_key(k0) && c0.keys().contains(k0));
        assert forall|n: Seq<char>| #[trigger] m0.contains_key(n) implies s0.buffers.m().contains_key(n) && list_in(m0[n]@, text_of(s0.buffers, n)) by { assert(c0.has(k0, n)); }
    }
//@ collect 1 Vec<SelectionData>
//@ loop 0 before
    let ghost all = vx_it0@;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        this.state == s0, s0.ok(), sels.m() == m0,
        forall|n: Seq<char>| #[trigger] m0.contains_key(n) ==> s0.buffers.m().contains_key(n) && list_in(m0[n]@, text_of(s0.buffers, n)),
        forall|i: int| 0 <= i < all.len() ==> m0.contains_key((#[trigger] all[i])@),
        forall|n: Seq<char>| #[trigger] selections_t.m().contains_key(n) ==> m0.contains_key(n) && list_told(text_of(s0.buffers, n), m0[n]@, selections_t.m()[n]),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> selections_t.m().contains_key((#[trigger] all[i])@),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[all.len() - vx_it0@.len()]); } }
//@ loop 1 before
    let ghost allv = vx_it1@;
//@ loop 1
    invariant
        this.state == s0, s0.ok(), s0.buffers.m().contains_key(k@), list_in(v@, text_of(s0.buffers, k@)), 
        vx_it1@.len() <= allv.len(), vx_it1@ == allv.skip(allv.len() - vx_it1@.len()),
        allv.len() == v@.len(), forall|i: int| 0 <= i < allv.len() ==> *#[trigger] allv[i] == v@[i],
        vx_acc1@.len() == allv.len() - vx_it1@.len(),
        forall|i: int| 0 <= i < vx_acc1@.len() ==> sel_told(text_of(s0.buffers, k@), v@[i], (#[trigger] vx_acc1@[i]).lv()),
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ loop 1 end
    proof {
        let d = vx_acc1@.last();
        let b = text_of(s0.buffers, k@);
        let s1 = v@[vx_acc1@.len() - 1];
        assert(told_as(d.lv(), s1, d.anchor.pos, d.cursor.pos, d.text@));
        if b.len() == 0 { assert(d.text@ =~= Seq::empty()); }
        assert(sel_told(b, s1, d.lv()));
    }
//@ loop 0 after
    proof {
        u = selections_t.m();
        assert forall|n: Seq<char>| #[trigger] m0.contains_key(n) implies u.contains_key(n) by { assert(m0.dom().contains(n)); assert(listed(all, n)); }
        assert(u.dom() =~= m0.dom());
    }
