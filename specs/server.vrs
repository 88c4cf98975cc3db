//@ unit server
//@ include rpcfns.vrs
//@ include handle.vrs
//@ rewrite . await => 
//@ rewrite Arc < LocalExecutor < '_ >> => VxExecutor
//@ rewrite future :: block_on ($$x) => $$x
//@ rewrite io :: Result < () > => Result<(), VxIoError>
//@ rewrite fmt :: Display => VxShow
//@ rewrite . as_bytes () => . vx_as_bytes ()
//@ rewrite let $x = Arc :: new (RwLock :: new (HashMap :: < usize , ServerStream > :: new ())) ; => let mut $x = VxIndex :: vx_new () ;
//@ rewrite let $x = Arc :: clone (& $y) ; => let mut $x = vx_shared (& $y) ;
//@ rewrite ex . spawn (async move { $$b }) . detach () ; => { $$b }
//@ rewrite = $x . write () . expect ($$m) ; => = & mut $x ;
//@ rewrite = $x . read () . expect ($$m) ; => = & $x ;
//@ rewrite . write () . expect ($$m) . => .
//@ rewrite . read () . expect ($$m) . => .
//@ rewrite for ($k , $v) in $x . iter_mut () { $$b } => for vx_k in $x . vx_keys () { let $k = & vx_k ; let $v = $x . vx_at (& vx_k) ; $$b }
//@ rewrite receiver : Receiver < Event > => mut receiver : VxReceiver < Event >
//@ rewrite let (bsender , breceiver) => let (bsender , mut breceiver)
//@ verus
use vstd::std_specs::cmp::PartialEqSpec;
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
// ---- trusted: sockets ------------------------------------------------------------
#[verifier::external_body]
#[derive(Debug)]
struct VxIoError { _p: u8 }
impl VxShow for VxIoError {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
#[verifier::external_body]
struct VxBytes { _p: u8 }
impl VxBytes { uninterp spec fn text(&self) -> Seq<char>; }
trait VxAsBytes { fn vx_as_bytes(&self) -> VxBytes; }
impl VxAsBytes for String {
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: VxBytes)
        ensures r.text() == self@
    { unimplemented!() }
}
/// the connection of a client
#[verifier::external_body]
struct ServerStream { _p: u8 }
impl ServerStream {
    /// what was written to it
    uninterp spec fn sent(&self) -> Seq<char>;
    /// writing to it failed
    uninterp spec fn broken(&self) -> bool;
    #[verifier::external_body]
    fn write_all(&mut self, b: VxBytes) -> (r: Result<(), VxIoError>)
        ensures match r { Ok(_) => final(self).sent() == old(self).sent() + b.text(), Err(_) => final(self).broken() }
    { unimplemented!() }
}
/// the text was written to the connection, unless that failed
spec fn told(a: ServerStream, b: ServerStream, text: Seq<char>) -> bool {
    b.broken() || b.sent() == a.sent() + text
}
// ---- trusted: the shared index of clients, a hash map behind a lock -----------------
#[verifier::external_body]
struct VxIndex { _p: u8 }
impl vstd::view::View for VxIndex { type V = Map<usize, ServerStream>; uninterp spec fn view(&self) -> Map<usize, ServerStream>; }
impl VxIndex {
    #[verifier::external_body]
    fn vx_new() -> (r: VxIndex) ensures r@ == Map::<usize, ServerStream>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: usize, v: ServerStream) -> (r: Option<ServerStream>)
        ensures final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &usize) -> (r: Option<ServerStream>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some == old(self)@.contains_key(*k)
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &usize) -> (r: bool)
        ensures r == self@.contains_key(*k)
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &usize) -> (r: Option<&mut ServerStream>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0)
    { unimplemented!() }
    /// the keys in iteration order
    #[verifier::external_body]
    fn vx_keys(&self) -> (r: Vec<usize>)
        ensures r@.no_duplicates(), r@.to_set() == self@.dom()
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_at(&mut self, k: &usize) -> (r: &mut ServerStream)
        requires old(self)@.contains_key(*k)
        ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r))
    { unimplemented!() }
}
/// the index as another task finds it: nothing is known of it
#[verifier::external_body]
fn vx_shared(c: &VxIndex) -> VxIndex { unimplemented!() }
// ---- trusted: channels and tasks ------------------------------------------------------
#[verifier::external_body]
struct VxExecutor { _p: u8 }
#[verifier::external_body]
struct VxRecvError { _p: u8 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxReceiver<T> { _p: core::marker::PhantomData<T> }
impl<T> VxReceiver<T> {
    /// what was received so far
    uninterp spec fn got(&self) -> Seq<T>;
    #[verifier::external_body]
    fn recv(&mut self) -> (r: Result<T, VxRecvError>)
        ensures match r {
            Ok(t) => final(self).got() == old(self).got().push(t),
            Err(_) => final(self).got() == old(self).got(),
        }
    { unimplemented!() }
}
#[verifier::external_body]
struct VxSender { _p: u8 }
#[verifier::external_body]
fn unbounded() -> (VxSender, VxReceiver<BroadcastMessage>) { unimplemented!() }
impl VxShow for Notification {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
impl VxShow for Response {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
// ---- the editor as the server uses it ---------------------------------------------------
uninterp spec fn set_items(s: std::collections::HashSet<usize>) -> Seq<usize>;
#[verifier::external_body]
broadcast proof fn axiom_set_items(s: std::collections::HashSet<usize>)
    ensures #![trigger set_items(s)] set_items(s).no_duplicates(), set_items(s).to_set() == s@
{ unimplemented!() }
impl VxSliceIter<usize> for std::collections::HashSet<usize> {
    spec fn vx_seq(&self) -> Seq<usize> { set_items(*self) }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a usize>) { unimplemented!() }
}
impl Editor {
    #[verifier::external_body]
    fn new(session: &String, notifier: VxSender) -> (r: Editor)
        ensures known_clients(r) == Set::<usize>::empty(), r.stopped_clients@ == Set::<usize>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    fn add_client(&mut self, id: usize)
        ensures known_clients(*final(self)) == known_clients(*old(self)).insert(id), final(self).stopped_clients@ == old(self).stopped_clients@
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_client(&mut self, id: usize)
        ensures known_clients(*final(self)) == known_clients(*old(self)).remove(id), final(self).stopped_clients@ == old(self).stopped_clients@
    { unimplemented!() }
}
//@ source core/src/editor/mod.rs
//@ fn Editor::removed_clients
    ensures
        result@.no_duplicates(), result@.to_set() == old(self).stopped_clients@,
        final(self).stopped_clients@ == Set::<usize>::empty(), final(self).core == old(self).core,
//@ entry
    broadcast use axiom_set_items;
    let ghost all = set_items(self.stopped_clients);
    assert(all.no_duplicates() && all.to_set() == old(self).stopped_clients@);
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost mut k: int = 0;
//@ loop 0
    invariant
        0 <= k <= all.len(), src.len() == all.len(), vx_it0@ == src.skip(k),
        forall|i: int| #![auto] 0 <= i < src.len() ==> *src[i] == all[i],
        vx_acc0@ == all.take(k),
    ensures k == all.len()
    decreases all.len() - k
//@ loop 0 end
    proof { k = k + 1; assert(vx_acc0@ =~= all.take(k)); }
//@ loop 0 after
    assert(all.take(all.len() as int) =~= all);
//@ source core/src/server.rs
//@ struct BroadcastMessage
//@ struct Event
//@ fn BroadcastMessage::should_notify
    ensures result == match self.clients { None => true, Some(cs) => cs@.contains(client_id) }
//@ entry
    proof {
        if self.clients is Some {
            let cs = self.clients->0@;
            assert(cs.contains(client_id) <==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).eq_spec(&client_id));
        }
    }
//@ verus
struct Server { _p: u8 }
/// a message as it is written: its text on one line
spec fn line_of<T: VxShow>(m: T) -> Seq<char> { m.vx_shown() + seq!['\n'] }
//@ fn Server::write_client
    ensures told(*old(stream), *final(stream), line_of(*message))
//@ entry
    proof { reveal_strlit("\n"); }
//@ exit
    assert(Seq::<char>::empty() + message.vx_shown() + "\n"@ =~= line_of(*message));
    assert(Seq::<char>::empty() + message.vx_shown() =~= message.vx_shown());
//@ verus
/// what one event does to the connections and the editor
spec fn step(a: Map<usize, ServerStream>, e: Editor, ev: Event, b: Map<usize, ServerStream>, f: Editor) -> bool {
    match ev {
        Event::Join((id, s)) => b == a.insert(id, s),
        Event::Leave(id) => b == a.remove(id) && !known_clients(f).contains(id),
        Event::Message((id, raw)) => if a.contains_key(id) {
            // answered on its own connection; the others are left alone; it may have quit
            exists|g: Editor, r: Response, s: ServerStream| #![trigger replied(r, raw@, id, e, g), told(a[id], s, line_of(r))]
                replied(r, raw@, id, e, g) && told(a[id], s, line_of(r))
                && (b == a.insert(id, s) || (b == a.remove(id) && !known_clients(f).contains(id)))
        } else {
            b == a && f.core == e.core
        },
    }
}
proof fn lemma_single(all: Seq<usize>, s: Set<usize>, id: usize)
    requires all.no_duplicates(), all.to_set() == s, s =~= Set::<usize>::empty() || s =~= set![id]
    ensures s.contains(id) ==> all =~= seq![id], !s.contains(id) ==> all.len() == 0
{
    if all.len() > 0 {
        assert(all.contains(all[0]));
        assert(all.to_set().contains(all[0]));
        assert(s.contains(all[0]) && all[0] == id);
        if all.len() > 1 {
            assert(all.contains(all[1]) && all.to_set().contains(all[1]));
            assert(s.contains(all[1]) && all[1] == id);
        }
    }
    if s.contains(id) { assert(all.to_set().contains(id)); assert(all.contains(id)); }
}
/// every event so far had exactly its effect
spec fn history(states: Seq<(Map<usize, ServerStream>, Editor)>, got: Seq<Event>) -> bool {
    states.len() == got.len() + 1
    && forall|i: int| 0 <= i < got.len() ==> step(states[i].0, states[i].1, #[trigger] got[i], states[i + 1].0, states[i + 1].1)
}
//@ fn Server::handle_events #[verifier::exec_allows_no_decreases_clause]
    requires receiver.got().len() == 0
//@ loop 0
    invariant true
//@ loop 1 before
    let ghost was = index@;
    let ghost all = vx_it1@;
    let ghost mut k: int = 0;
    assert forall|id: usize| was.contains_key(id) <==> all.contains(id) by { assert(all.to_set().contains(id) <==> was.dom().contains(id)); }
//@ loop 1
    invariant
        0 <= k <= all.len(), vx_it1@ == all.skip(k), all.no_duplicates(),
        forall|id: usize| was.contains_key(id) <==> #[trigger] all.contains(id),
        index@.dom() =~= was.dom(),
        forall|i: int| #![auto] k <= i < all.len() ==> index@[all[i]] == was[all[i]],
        forall|i: int| #![auto] 0 <= i < k ==> if bm.clients is None || bm.clients->0@.contains(all[i]) {
            told(was[all[i]], index@[all[i]], line_of(bm.message))
        } else { index@[all[i]] == was[all[i]] },
    ensures k == all.len()
    decreases all.len() - k
//@ loop 1 entry
    assert(k < all.len() ==> all.contains(all[k]));
//@ loop 1 end
    proof { k = k + 1; }
//@ loop 1 after
    // C21, C13: a broadcast reaches exactly its addressees
    assert forall|id: usize| was.contains_key(id) implies
        if bm.clients is None || bm.clients->0@.contains(id) { told(was[id], #[trigger] index@[id], line_of(bm.message)) } else { index@[id] == was[id] } by {
        let i = all.index_of(id);
        assert(all.contains(id));
        assert(all[i] == id);
    }
//@ loop 2 before
    let ghost mut states = seq![(clients@, editor)];
//@ loop 2
    invariant
        clients@.dom() =~= known_clients(editor), editor.stopped_clients@ =~= Set::<usize>::empty(),
        history(states, receiver.got()), states.last() == (clients@, editor),
//@ loop 2 entry
    let ghost a = clients@;
    let ghost e = editor;
    let ghost past = receiver.got();
//@ loop 3 before
    let ghost c0 = clients@;
    let ghost all = vx_it3@;
    let ghost mut k: int = 0;
    proof {
        let ev = receiver.got().last();
        let id = match ev { Event::Join((i, _)) => i, Event::Leave(i) => i, Event::Message((i, _)) => i };
        lemma_single(all, all.to_set(), id);
    }
//@ loop 3
    invariant
        0 <= k <= all.len(), vx_it3@ == all.skip(k), all.len() <= 1,
        all.len() == 1 ==> c0.contains_key(all[0]),
        clients@ == if k == 0 { c0 } else { c0.remove(all[0]) },
    ensures k == all.len()
    decreases all.len() - k
//@ loop 3 end
    proof { k = k + 1; }
//@ loop 3 after
    proof {
        let got = receiver.got();
        match got.last() {
            Event::Message((id, raw)) => {
                if a.contains_key(id) {
                    assert(clients@ =~= c0 || clients@ =~= a.remove(id));
                }
            }
            Event::Leave(id) => { assert(clients@ =~= a.remove(id)); }
            Event::Join((id, s)) => { assert(clients@ =~= a.insert(id, s)); }
        }
        assert(step(a, e, got.last(), clients@, editor));
        let before = states;
        states = states.push((clients@, editor));
        assert forall|i: int| 0 <= i < got.len() implies step(states[i].0, states[i].1, #[trigger] got[i], states[i + 1].0, states[i + 1].1) by {
            if i < past.len() { assert(got[i] == past[i]); }
        }
    }
//@ verus
// ---- the tasks that feed the events ------------------------------------------------------
/// the sending end of the event channel: what was sent through it
#[verifier::external_body]
struct VxEvents { _p: u8 }
impl VxEvents {
    uninterp spec fn sent(&self) -> Seq<Event>;
    // trusted: sender.send(e).await, which only fails when the event loop is over
    #[verifier::external_body]
    fn vx_send(&mut self, e: Event)
        ensures final(self).sent() == old(self).sent().push(e)
    { unimplemented!() }
}
/// the lines that will be read from a connection, up to its end
uninterp spec fn lines_in(s: ServerStream) -> Seq<Result<String, VxIoError>>;
#[verifier::external_body]
fn vx_lines(s: ServerStream) -> (r: VxIter<Result<String, VxIoError>>)
    ensures r@ == lines_in(s)
{ unimplemented!() }
/// one message for each line up to the first that cannot be read
spec fn messages(ls: Seq<Result<String, VxIoError>>, id: usize) -> Seq<Event>
    decreases ls.len()
{
    if ls.len() == 0 || ls[0] is Err { Seq::empty() } else { seq![Event::Message((id, ls[0]->Ok_0))] + messages(ls.skip(1), id) }
}
//@ fn Server::read_client
    ensures
        result is Ok,
        final(sender).sent() == old(sender).sent() + messages(lines_in(stream), client_id) + seq![Event::Leave(client_id)],
//@ rewrite sender : Sender < Event > => sender : & mut VxEvents
//@ rewrite io :: BufReader :: new ($x) . lines () => vx_lines ($x)
//@ rewrite sender . send ($$x) . await . unwrap_or_else ($$y) => sender . vx_send ($$x)
//@ loop 0 before
    let ghost all = lines@;
    let ghost s0 = sender.sent();
    assert(s0 + Seq::<Event>::empty() =~= s0);
    let ghost mut told = Seq::<Event>::empty();
    assert(told + messages(all, client_id) =~= messages(all, client_id));
//@ loop 0
    invariant_except_break
        sender.sent() == s0 + told, told + messages(lines@, client_id) == messages(all, client_id),
    ensures
        sender.sent() == s0 + messages(all, client_id),
    decreases lines@.len()
//@ loop 0 entry
    let ghost ls = lines@;
    proof {
        if ls.len() == 0 || ls[0] is Err {
            assert(messages(ls, client_id) =~= Seq::<Event>::empty());
            assert(told + Seq::<Event>::empty() =~= told);
        }
    }
//@ loop 0 end
    proof {
        let e = Event::Message((client_id, ls[0]->Ok_0));
        assert(sender.sent() =~= s0 + told.push(e));
        assert(told.push(e) + messages(lines@, client_id) =~= told + (seq![e] + messages(lines@, client_id)));
        told = told.push(e);
    }
//@ exit
    assert(sender.sent() =~= old(sender).sent() + messages(lines_in(stream), client_id) + seq![Event::Leave(client_id)]);
//@ const FIRST_CLIENT_ID
//@ verus
#[verifier::external_body]
struct Session { _p: u8 }
#[verifier::external_body]
struct ServerListener { _p: u8 }
impl ServerListener {
    #[verifier::external_body]
    fn bind(s: &Session) -> Result<ServerListener, VxIoError> { unimplemented!() }
    // trusted: accepting a connection does not fail
    #[verifier::external_body]
    fn incoming(&self) -> (r: VxIter<Result<ServerStream, VxIoError>>)
        ensures forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] is Ok, r@.len() < usize::MAX
    { unimplemented!() }
}
/// the reader of a client starts after the client was announced
#[verifier::external_body]
fn vx_reader(id: usize, stream: ServerStream, sender: &mut VxEvents)
    requires old(sender).sent().len() > 0, old(sender).sent().last() matches Event::Join((i, _)) && i == id
    ensures final(sender).sent() == old(sender).sent()
{ unimplemented!() }
/// each client is announced once, under an id of its own
spec fn announced(es: Seq<Event>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i] matches Event::Join((id, _)) && id == 1 + i)
}
//@ fn Server::serve
    requires old(sender).sent().len() == 0
    ensures announced(final(sender).sent())
//@ rewrite sender : Sender < Event > => sender : & mut VxEvents
//@ rewrite let sender = sender . clone () ; =>
//@ rewrite sender . send ($$x) . await . unwrap_or_else ($$y) => sender . vx_send ($$x)
//@ rewrite ex . spawn (Self :: read_client ($$x)) . detach () => vx_reader ($$x)
//@ rewrite println ! () ; =>
//@ loop 0
    invariant
        announced(sender.sent()), next_client_id == 1 + sender.sent().len(),
        sender.sent().len() + incoming@.len() < usize::MAX,
        forall|i: int| 0 <= i < incoming@.len() ==> #[trigger] incoming@[i] is Ok,
    decreases incoming@.len()
//@ loop 0 entry
    let ghost es = sender.sent();
    let ghost inc = incoming@;
//@ loop 0 end
    proof {
        assert(sender.sent().drop_last() =~= es);
        assert forall|i: int| 0 <= i < incoming@.len() implies #[trigger] incoming@[i] is Ok by { assert(incoming@[i] == inc[i + 1]); }
    }
