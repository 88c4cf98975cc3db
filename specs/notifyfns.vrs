//@ include common.vrs
//@ include json.vrs
//@ include fmt.vrs
//@ rewrite Into < => VxInto <
//@ rewrite . into () => . vx_into ()
//@ rewrite . to_owned () => . vx_to_owned ()
//@ rewrite remote :: => 
//@ rewrite notifications :: $x :: new ($$y) => vx_notification (VxWhat :: $x , $$y)
//@ rewrite . display () => 
//@ rewrite Arc < Mutex < CoreState >> => CoreState
//@ rewrite . get :: < _ , $t > => . vx_get :: < $t >
//@ rewrite $x . get ($k) => $x . vx_get ($k)
//@ rewrite rlua :: Table => LuaTable
//@ rewrite . core . get_notifier () . => . core . notifier .
//@ rewrite . sort_by (| $a , $b | $$body) => . vx_sort_by ({ let ($a , $b) = vx_any_pair () ; vx_cmp_is ($$body , $a , $b) })
//@ rewrite notifications :: => 
//@ verus
use vstd::std_specs::cmp::PartialEqSpec;
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);

trait VxInto<T>: Sized {
    spec fn vx_into_spec(self) -> T;
    fn vx_into(self) -> (r: T) ensures r == self.vx_into_spec();
}
impl VxInto<Option<Vec<usize>>> for Vec<usize> {
    spec fn vx_into_spec(self) -> Option<Vec<usize>> { Some(self) }
    fn vx_into(self) -> (r: Option<Vec<usize>>) { Some(self) }
}
impl VxInto<Option<Vec<usize>>> for Option<Vec<usize>> {
    spec fn vx_into_spec(self) -> Option<Vec<usize>> { self }
    fn vx_into(self) -> (r: Option<Vec<usize>>) { self }
}
/// jsonrpc::Notification
#[verifier::external_body]
#[derive(Debug)]
struct Notification { _p: u8 }
//@ source core/src/server.rs
//@ struct BroadcastMessage
//@ verus
impl BroadcastMessage {
    /// None: everybody
    spec fn addressees(&self) -> Option<Seq<usize>> {
        match self.clients { Some(v) => Some(v@), None => None }
    }
}
/// addressed to one client and nobody else
spec fn only(m: &BroadcastMessage, id: usize) -> bool {
    m.addressees() is Some && forall|x: usize| #[trigger] m.addressees()->0.contains(x) <==> x == id
}
//@ fn BroadcastMessage::new
    ensures result.addressees() is None, result.message == message
//@ fn BroadcastMessage::for_clients
    ensures result.addressees() == Some(clients@), result.message == message
//@ fn BroadcastMessage::should_notify
    ensures result == match self.addressees() { None => true, Some(cs) => cs.contains(client_id) }
//@ entry
    proof {
        if self.clients is Some {
            let cs = self.clients->0@;
            assert(cs.contains(client_id) <==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).eq_spec(&client_id));
        }
    }
//@ verus
// ---- the notifier: the channel is shared, so its methods take &self; here they take &mut self
// ---- so that what they put into the channel can be stated
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct Sender<T> { _p: core::marker::PhantomData<T> }
uninterp spec fn sent(s: &Sender<BroadcastMessage>) -> Seq<BroadcastMessage>;
// trusted: future::block_on(sender.send(m)).expect(..)
#[verifier::external_body]
fn vx_send(s: &mut Sender<BroadcastMessage>, m: BroadcastMessage)
    ensures sent(final(s)) == sent(old(s)).push(m)
{ unimplemented!() }
// trusted: the typed constructors of protocol::notifications::Notification
enum VxWhat { Echo, Hint, Info, Menu, Status, View }
/// the notification of that kind with these parameters
uninterp spec fn note<P>(what: VxWhat, params: P) -> Notification;
#[verifier::external_body]
fn vx_notification<P>(what: VxWhat, params: P) -> (r: Notification)
    ensures r == note(what, params)
{ unimplemented!() }
#[verifier::external_body]
struct PathBuf { _p: u8 }
/// what Path::display writes
impl VxShow for PathBuf {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
/// ornament::Text
#[verifier::external_body]
struct Text { _p: u8 }
/// this text in one face
uninterp spec fn styled(text: Seq<char>, face: Face) -> Text;
struct ViewParams { items: Vec<u8> }
/// one more message, for that client alone
spec fn told(old: &Notifier, new: &Notifier, id: usize) -> bool {
    &&& sent(&new.sender).len() == sent(&old.sender).len() + 1
    &&& sent(&new.sender).drop_last() == sent(&old.sender)
    &&& only(&sent(&new.sender).last(), id)
}
spec fn said(old: &Notifier, new: &Notifier, id: Option<usize>) -> bool {
    match id {
        Some(i) => told(old, new, i),
        None => sent(&new.sender).len() == sent(&old.sender).len() + 1
            && sent(&new.sender).drop_last() == sent(&old.sender)
            && sent(&new.sender).last().addressees() is None,
    }
}
impl VxInto<Option<usize>> for usize {
    spec fn vx_into_spec(self) -> Option<usize> { Some(self) }
    fn vx_into(self) -> (r: Option<usize>) { Some(self) }
}
impl VxInto<Option<usize>> for Option<usize> {
    spec fn vx_into_spec(self) -> Option<usize> { self }
    fn vx_into(self) -> (r: Option<usize>) { self }
}
enum Face { Default, Error, Match, Prompt, Selection }
// trusted: builds the text of an echo
#[verifier::external_body]
fn vx_echo_text(text: String, face: Face) -> (r: Text)
    ensures r == styled(text@, face)
{ unimplemented!() }
/// the last message is an echo of that text in that face
spec fn echoed(n: &Notifier, text: Seq<char>, face: Face) -> bool {
    sent(&n.sender).last().message == note(VxWhat::Echo, styled(text, face))
}
/// what a client is told about itself and the editor
spec fn info_of(p: InfoParams, id: usize, info: &EditorInfo) -> bool {
    p.client@ == dec(id as int) && p.session@ == info.session@ && p.cwd@ == info.cwd.vx_shown()
}
//@ source core/src/editor/mod.rs
//@ struct EditorInfo
//@ source remote/src/protocol.rs
//@ struct notifications::InfoParams
//@ verus
//@ source core/src/editor/core.rs
//@ struct Notifier
//@ fn Notifier::broadcast
    ensures
        sent(&final(self).sender).len() == sent(&old(self).sender).len() + 1,
        sent(&final(self).sender).drop_last() == sent(&old(self).sender),
        sent(&final(self).sender).last().addressees() == match only_clients.vx_into_spec() { Some(v) => Some(v@), None => None },
        sent(&final(self).sender).last().message == message,
//@ rewrite & self , => & mut self ,
//@ rewrite future :: block_on (self . sender . send ($x)) . expect ($y) => vx_send (& mut self . sender , $x)
//@ entry
    let ghost was = sent(&self.sender);
//@ exit
    assert(sent(&self.sender).drop_last() =~= was);
//@ fn Notifier::notify
    ensures
        told(old(self), final(self), client_id),
        sent(&final(self).sender).last().message == message,
//@ rewrite & self , => & mut self ,
//@ fn Notifier::echo
    ensures said(old(self), final(self), client_id.vx_into_spec()),
//@ if tell
        echoed(final(self), text@, face),
//@ end
//@ rewrite & self , => & mut self ,
//@ rewrite Text :: from (TextFragment { text : $$a , face , }) => vx_echo_text ($$a , face)
//@ rewrite self . broadcast (notif , None) => self . broadcast (notif , None :: < Vec < usize > >)
//@ fn Notifier::message
    ensures said(old(self), final(self), client_id.vx_into_spec()),
//@ if tell
        echoed(final(self), text@, Face::Default),
//@ end
//@ rewrite & self , => & mut self ,
//@ fn Notifier::error
    ensures said(old(self), final(self), client_id.vx_into_spec()),
//@ if tell
        echoed(final(self), text@, Face::Error),
//@ end
//@ rewrite & self , => & mut self ,
//@ fn Notifier::info_update
    ensures
        told(old(self), final(self), client_id),
//@ if tell
        exists|p: InfoParams| #[trigger] note(VxWhat::Info, p) == sent(&final(self).sender).last().message && info_of(p, client_id, info),
//@ end
//@ rewrite & self , => & mut self ,
//@ rewrite to_string () => vx_to_string ()
//@ fn Notifier::view_update
    ensures
        sent(&final(self).sender).len() == sent(&old(self).sender).len() + params@.len(),
        sent(&final(self).sender).take(sent(&old(self).sender).len() as int) == sent(&old(self).sender),
        forall|i: int| 0 <= i < params@.len() ==> only(&sent(&final(self).sender)[sent(&old(self).sender).len() + i], (#[trigger] params@[i]).0)
//@ if tell
            && sent(&final(self).sender)[sent(&old(self).sender).len() + i].message == note(VxWhat::View, params@[i].1)
//@ end
            ,
//@ rewrite & self , => & mut self ,
//@ loop 0 before
    let ghost was = sent(&self.sender);
    let ghost all = params@;
    let ghost mut k: int = 0;
//@ loop 0
    invariant
        0 <= k <= all.len(), vx_it0@ == all.skip(k),
        sent(&self.sender).len() == was.len() + k,
        sent(&self.sender).take(was.len() as int) == was,
        forall|i: int| 0 <= i < k ==> only(&sent(&self.sender)[was.len() + i], (#[trigger] all[i]).0)
//@ if tell
            && sent(&self.sender)[was.len() + i].message == note(VxWhat::View, all[i].1)
//@ end
            ,
    ensures k == all.len()
    decreases all.len() - k
//@ loop 0 entry
    let ghost mid = sent(&self.sender);
//@ loop 0 end
    proof {
        let now = sent(&self.sender);
        assert(now.drop_last() == mid);
        assert forall|i: int| 0 <= i < mid.len() implies now[i] == mid[i] by { assert(now.drop_last()[i] == now[i]); }
        assert(now.take(was.len() as int) =~= was) by { assert(mid.take(was.len() as int) == was); assert forall|i: int| 0 <= i < was.len() implies now[i] == was[i] by { assert(mid.take(was.len() as int)[i] == mid[i]); } }
        k = k + 1;
    }
//@ if tell
//@ verus
// ---- what scripts send: the closures registered in LuaEditor -------------------------------
#[verifier::external_body]
struct CoreState { _p: u8 }
#[verifier::external_body]
struct LuaContext { _p: u8 }
#[verifier::external_body]
struct LuaError { _p: u8 }
#[verifier::external_body]
struct LuaTable { _p: u8 }
/// what the table holds under a name, read as that type
uninterp spec fn held_in<V>(t: LuaTable, k: Seq<char>) -> Option<V>;
impl LuaTable {
    #[verifier::external_body]
    fn vx_get<V>(&self, k: &str) -> (r: Result<V, LuaError>)
        ensures match held_in::<V>(*self, k@) { Some(v) => r == Ok::<V, LuaError>(v), None => r is Err }
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { _k: core::marker::PhantomData<K>, _v: core::marker::PhantomData<V> }
impl<K, V> HashMap<K, V> {
    /// the values in the order of iteration
    uninterp spec fn all(&self) -> Seq<V>;
    #[verifier::external_body]
    fn values<'a>(&'a self) -> (r: VxIter<&'a V>)
        ensures r@.len() == self.all().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.all()[i]
    { unimplemented!() }
}
impl<T> VxIntoIter for VxIter<T> {
    type Item = T;
    spec fn vx_items(&self) -> Seq<T> { self@ }
    fn vx_into_iter(self) -> (r: VxIter<T>) { self }
}
/// Text::from a string
uninterp spec fn plain(text: Seq<char>) -> Text;
impl VxInto<Text> for String {
    spec fn vx_into_spec(self) -> Text { plain(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Text) { unimplemented!() }
}
impl<'a> VxInto<Text> for &'a str {
    spec fn vx_into_spec(self) -> Text { plain(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Text) { unimplemented!() }
}
//@ source remote/src/protocol.rs
//@ struct notifications::StatusParamsItem
//@ struct notifications::HintParams
//@ source core/src/editor/core.rs
//@ struct Core
//@ source core/src/editor/mod.rs
//@ struct LuaEditor
//@ verus
// trusted: sort_by, its comparison being checked to be that of the indices
#[verifier::external_body]
fn vx_any_pair<'a>() -> (r: (&'a StatusParamsItem, &'a StatusParamsItem)) { unimplemented!() }
fn vx_cmp_is(o: Ordering, a: &StatusParamsItem, b: &StatusParamsItem)
    requires o == (if a.index < b.index { Ordering::Less } else if a.index == b.index { Ordering::Equal } else { Ordering::Greater })
{ }
trait VxSortBy {
    fn vx_sort_by(&mut self, u: ());
}
impl VxSortBy for Vec<StatusParamsItem> {
    #[verifier::external_body]
    fn vx_sort_by(&mut self, u: ())
        ensures by_index(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len()
    { unimplemented!() }
}
spec fn by_index(s: Seq<StatusParamsItem>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).index <= (#[trigger] s[j]).index
}
/// a part of the status line as the script describes it
spec fn status_of(t: LuaTable) -> StatusParamsItem {
    StatusParamsItem { index: held_in::<isize>(t, "index"@)->0, text: plain((held_in::<String>(t, "text"@)->0)@) }
}
/// the parts of the status line, in the order of their indices
spec fn status_told(n: &Notifier, parts: Seq<LuaTable>) -> bool {
    exists|p: Vec<StatusParamsItem>| #[trigger] note(VxWhat::Status, p) == sent(&n.sender).last().message && by_index(p@)
        && p@.to_multiset() == parts.map_values(|t: LuaTable| status_of(t)).to_multiset()
}
spec fn hint_told(n: &Notifier, lines: Seq<String>) -> bool {
    exists|p: HintParams| #[trigger] note(VxWhat::Hint, p) == sent(&n.sender).last().message
        && p.text@ =~= lines.map_values(|l: String| plain(l@))
}
//@ fn LuaEditor::lua_show_hint handler:show_hint in:UserData@LuaEditor::add_methods args:(usize,Vec<String>)
//@ rewrite this : & LuaEditor => this : & mut LuaEditor
    ensures
        result is Ok,
        told(&old(this).core.notifier, &final(this).core.notifier, vx_args.0),
        hint_told(&final(this).core.notifier, vx_args.1@),
//@ collect 1 Vec<Text>
//@ loop 0 before
    let ghost all = vx_it0@;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        vx_acc0@.len() == all.len() - vx_it0@.len(),
        forall|i: int| 0 <= i < vx_acc0@.len() ==> #[trigger] vx_acc0@[i] == plain((*all[i])@),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ fn LuaEditor::lua_set_status_line handler:set_status_line in:UserData@LuaEditor::add_methods args:(usize,HashMap<String,LuaTable>)
//@ rewrite this : & LuaEditor => this : & mut LuaEditor
    ensures
        result is Ok ==> told(&old(this).core.notifier, &final(this).core.notifier, vx_args.0)
            && status_told(&final(this).core.notifier, vx_args.1.all()),
        result is Err ==> *final(this) == *old(this),
//@ loop 0 before
    let ghost all = vx_it0@;
    let ghost parts = config.all();
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        all.len() == parts.len(), forall|i: int| 0 <= i < all.len() ==> *#[trigger] all[i] == parts[i],
        items@.len() == all.len() - vx_it0@.len(),
        forall|i: int| 0 <= i < items@.len() ==> #[trigger] items@[i] == status_of(parts[i]),
        *this == *old(this),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 after
    proof { assert(items@ =~= parts.map_values(|t: LuaTable| status_of(t))); }
//@ end
