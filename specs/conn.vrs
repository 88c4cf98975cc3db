//@ unit conn
//@ include common.vrs
//@ include json.vrs
//@ rewrite . clone () => . vx_clone ()
//@ rewrite . to_owned () => . vx_to_owned ()
//@ rewrite notifications :: => 
//@ rewrite serde_json :: => 
//@ rewrite requests :: $x :: new_noarg ($$y) => vx_new_noarg ($$y)
//@ rewrite requests :: $x :: new ($$y) => vx_new_request ($$y)
//@ rewrite requests :: MenuParams => RequestMenuParams
//@ rewrite requests :: => 
//@ verus
// ---- trusted: opaque types ---------------------------------------------------
/// ornament::Text<Face>
#[verifier::external_body]
#[derive(Debug)]
struct Text { _p: u8 }
type StatusParams = Vec<StatusParamsItem>;
type ViewParams = Vec<ViewParamsItem>;
//@ source remote/src/jsonrpc.rs
//@ struct Id
//@ struct Notification
//@ struct Error
//@ struct Response
//@ struct ClientEvent
//@ fn Notification::params
    ensures match self.params {
        None => result is Ok && result->Ok_0 is None,
        Some(v) => match decoded::<Option<T>>(v) {
            Some(t) => result is Ok && result->Ok_0 == t,
            None => result is Err,
        },
    }
//@ source remote/src/protocol.rs
//@ struct notifications::HintParams
//@ struct notifications::InfoParams
//@ struct notifications::MenuParamsEntry
//@ struct notifications::MenuParams
//@ struct notifications::StatusParamsItem
//@ struct notifications::ViewParamsLens
//@ struct notifications::ViewParamsItem
//@ source remote/src/connection.rs
//@ struct Menu
//@ struct ConnectionEvent
//@ struct ConnectionState
//@ fn Menu::select_next
    requires on_entry(old(self))
    ensures
        final(self).selected as int == (if old(self).selected + 1 < old(self).entries@.len() { old(self).selected + 1 } else { old(self).selected as int }),
        final(self).entries == old(self).entries, final(self).command == old(self).command,
        final(self).search == old(self).search, final(self).title == old(self).title,
//@ fn Menu::select_previous
    ensures
        final(self).selected as int == (if old(self).selected > 0 { old(self).selected - 1 } else { 0int }),
        final(self).entries == old(self).entries, final(self).command == old(self).command,
        final(self).search == old(self).search, final(self).title == old(self).title,
//@ fn Menu::selected_item
    ensures
        self.selected < self.entries@.len() ==> result@ == self.entries@[self.selected as int].value@,
        self.selected >= self.entries@.len() ==> result@ == Seq::<char>::empty(),
//@ entry
    proof { reveal_strlit(""); }
//@ verus
/// the cursor is on an entry, or at 0 when there are none
spec fn on_entry(m: &Menu) -> bool {
    m.selected < m.entries@.len() || (m.selected == 0 && m.entries@.len() == 0)
}
/// C15: moving never leaves the entries
fn vx_c15(m: &mut Menu, up: bool)
    requires on_entry(old(m))
    ensures
        on_entry(final(m)),
        up && old(m).selected == 0 ==> final(m).selected == 0,
        up && old(m).selected > 0 ==> final(m).selected == old(m).selected - 1,
        !up && old(m).selected + 1 >= old(m).entries@.len() ==> final(m).selected == old(m).selected,
        !up && old(m).selected + 1 < old(m).entries@.len() ==> final(m).selected == old(m).selected + 1,
{
    if up { m.select_previous() } else { m.select_next() }
}

/// the content of a notification: present and well-formed parameters
spec fn content<T>(n: Notification) -> Option<T> {
    match n.params {
        None => None,
        Some(v) => match decoded::<Option<T>>(v) { Some(Some(t)) => Some(t), _ => None },
    }
}
/// all but one of the mirrored values stay (kind: the one that may change)
spec fn others(a: &ConnectionState, b: &ConnectionState, kind: Seq<char>) -> bool {
    &&& (kind == "info"@ || (a.client == b.client && a.session == b.session))
    &&& (kind == "echo"@ || kind == "menu"@ || a.echo == b.echo)
    &&& (kind == "status"@ || a.status == b.status)
    &&& (kind == "view"@ || a.view == b.view)
    &&& (kind == "menu"@ || a.menu == b.menu)
}
spec fn mirrored(old: &ConnectionState, new: &ConnectionState, event: &ClientEvent, r: Option<ConnectionEvent>) -> bool {
    match event {
        ClientEvent::Response(_) => *new == *old && r is None,
        ClientEvent::Notification(n) => {
            let m = n.method@;
            if m == "echo"@ {
                match content::<Text>(*n) {
                    Some(t) => new.echo == Some(t) && r == Some(ConnectionEvent::Echo(t)) && others(old, new, m),
                    None => *new == *old && r is None,
                }
            } else if m == "hint"@ {
                *new == *old && match content::<HintParams>(*n) {
                    Some(t) => r == Some(ConnectionEvent::Hint(t)),
                    None => r is None,
                }
            } else if m == "info"@ {
                match content::<InfoParams>(*n) {
                    Some(t) => new.client == t.client && new.session == t.session
                        && (r matches Some(ConnectionEvent::Info(c, s)) && c@ == t.client@ && s@ == t.session@) && others(old, new, m),
                    None => *new == *old && r is None,
                }
            } else if m == "menu"@ {
                match content::<MenuParams>(*n) {
                    Some(t) => {
                        let menu = Menu { command: t.command, title: t.title, search: t.search, entries: t.entries, selected: 0 };
                        new.menu == Some(menu) && new.echo is None && r == Some(ConnectionEvent::Menu(menu)) && others(old, new, m)
                    }
                    None => *new == *old && r is None,
                }
            } else if m == "status"@ {
                match content::<StatusParams>(*n) {
                    Some(t) => new.status == t && r == Some(ConnectionEvent::Status(t)) && others(old, new, m),
                    None => *new == *old && r is None,
                }
            } else if m == "view"@ {
                match content::<ViewParams>(*n) {
                    Some(t) => new.view == t && r == Some(ConnectionEvent::View(t)) && others(old, new, m),
                    None => *new == *old && r is None,
                }
            } else {
                *new == *old && r is None
            }
        }
    }
}
proof fn lemma_kinds()
    ensures
        "echo"@ != "hint"@, "echo"@ != "info"@, "echo"@ != "menu"@, "echo"@ != "view"@, "echo"@ != "status"@,
        "hint"@ != "info"@, "hint"@ != "menu"@, "hint"@ != "view"@, "hint"@ != "status"@,
        "info"@ != "menu"@, "info"@ != "view"@, "info"@ != "status"@,
        "menu"@ != "view"@, "menu"@ != "status"@, "view"@ != "status"@,
{
    reveal_strlit("echo"); reveal_strlit("hint"); reveal_strlit("info"); reveal_strlit("menu"); reveal_strlit("status"); reveal_strlit("view");
    assert("echo"@[0] == 'e'); assert("hint"@[0] == 'h'); assert("info"@[0] == 'i'); assert("menu"@[0] == 'm');
    assert("view"@[0] == 'v'); assert("status"@[0] == 's');
}
//@ fn ConnectionState::event_update
    ensures mirrored(old(self), final(self), event, result)
//@ entry
    broadcast use axiom_str_ext;
    proof { lemma_kinds(); }
//@ verus
// ---- trusted: the request channel, the shared state ------------------------
#[verifier::external_body]
struct Client { _p: u8 }
#[verifier::external_body]
struct Session { _p: u8 }
/// async_channel::Sender; the requests put into it so far
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct Sender<T> { _p: core::marker::PhantomData<T> }
uninterp spec fn sent(s: &Sender<Request>) -> Seq<Request>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct RwLock<T> { _p: core::marker::PhantomData<T> }
type Arc<T> = Box<T>;
struct RequestMenuParams { command: String, search: String }
#[verifier::external_body]
struct KeyEvent { _p: u8 }
impl Client {
    #[verifier::external_body]
    fn new(session: Session) -> (r: (Client, Sender<Request>))
        ensures sent(&r.1).len() == 0
    { unimplemented!() }
}
//@ source remote/src/jsonrpc.rs
//@ struct Request
//@ source remote/src/protocol.rs
//@ struct requests::EditParams
//@ struct requests::MenuSelectParams
//@ source remote/src/connection.rs
//@ struct Connection
//@ verus
trait VxDefault: Sized {
    fn vx_default() -> Self;
}
impl<T> VxDefault for T {
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { unimplemented!() }
}
impl Connection {
    spec fn sent(&self) -> Seq<Request> { sent(&self.requests) }
    /// the i-th request sent carries the number i, and the next number is the count of the requests
    spec fn numbered(&self) -> bool {
        &&& self.next_request_id == self.sent().len()
        &&& forall|i: int| 0 <= i < self.sent().len() ==> (#[trigger] self.sent()[i]).id == Id::Number(i as i32)
    }
}
//@ fn Connection::new
    ensures result.numbered(), result.sent().len() == 0
//@ rewrite Default :: default () => VxDefault :: vx_default ()
//@ fn Connection::request_id
    requires old(self).next_request_id < i32::MAX
    ensures
        result == Id::Number(old(self).next_request_id),
        final(self).next_request_id == old(self).next_request_id + 1,
        final(self).client == old(self).client, final(self).state_lock == old(self).state_lock, final(self).requests == old(self).requests,
//@ verus
impl Connection {
    /// nothing but the requests sent and the next number can change
    spec fn one_more(&self, new: &Connection) -> bool {
        &&& new.numbered()
        &&& new.client == self.client && new.state_lock == self.state_lock
        &&& new.sent().len() == self.sent().len() + 1
        &&& new.sent().drop_last() == self.sent()
    }
    // trusted: puts the message into the channel
    #[verifier::external_body]
    fn request(&mut self, message: Request)
        ensures
            final(self).sent() == old(self).sent().push(message),
            final(self).client == old(self).client, final(self).state_lock == old(self).state_lock,
            final(self).next_request_id == old(self).next_request_id,
    { unimplemented!() }
    // trusted: a copy of the mirrored state
    #[verifier::external_body]
    fn state(&self) -> (r: ConnectionState)
    { unimplemented!() }
    // trusted: only changes what is behind the lock
    #[verifier::external_body]
    fn action_menu_cancel(&mut self)
        ensures *final(self) == *old(self)
    { unimplemented!() }
}
// trusted: the typed constructors of protocol::requests::Request
#[verifier::external_body]
fn vx_new_noarg(id: Id) -> (r: Request)
    ensures r.id == id
{ unimplemented!() }
#[verifier::external_body]
fn vx_new_request<P>(id: Id, params: P) -> (r: Request)
    ensures r.id == id
{ unimplemented!() }
//@ fn Connection::quit
    requires old(self).numbered(), old(self).next_request_id < i32::MAX
    ensures old(self).one_more(final(self))
//@ entry
    let ghost before = self.sent();
//@ exit
    assert(self.sent().drop_last() =~= before);
//@ fn Connection::edit
    requires old(self).numbered(), old(self).next_request_id < i32::MAX
    ensures old(self).one_more(final(self))
//@ entry
    let ghost before = self.sent();
//@ exit
    assert(self.sent().drop_last() =~= before);
//@ fn Connection::menu
    requires old(self).numbered(), old(self).next_request_id < i32::MAX
    ensures old(self).one_more(final(self))
//@ entry
    let ghost before = self.sent();
//@ exit
    assert(self.sent().drop_last() =~= before);
//@ fn Connection::exec
    requires old(self).numbered(), old(self).next_request_id < i32::MAX
    ensures old(self).one_more(final(self))
//@ entry
    let ghost before = self.sent();
//@ exit
    assert(self.sent().drop_last() =~= before);
//@ fn Connection::keys
    requires old(self).numbered(), old(self).next_request_id < i32::MAX
    ensures old(self).one_more(final(self))
//@ entry
    let ghost before = self.sent();
//@ exit
    assert(self.sent().drop_last() =~= before);
//@ fn Connection::menu_select
    requires old(self).numbered(), old(self).next_request_id < i32::MAX
    ensures *final(self) == *old(self) || old(self).one_more(final(self))
//@ entry
    let ghost before = self.sent();
//@ after self . action_menu_cancel () ;
    assert(self.sent().drop_last() =~= before);
