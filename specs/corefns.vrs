//@ rewrite let mut state = lock ! (self) ; => let state = & mut self . state ;
//@ rewrite let state = lock ! (self) ; => let state = & self . state ;
//@ rewrite lock ! (self) => self . state
//@ rewrite Rc < RefCell < View >> => View
//@ rewrite Arc < Mutex < CoreState >> => CoreState
//@ rewrite Rc :: new (RefCell :: new ($$x)) => $$x
//@ rewrite Rc :: clone ($$x) => vx_copy ($$x)
//@ rewrite . borrow () => 
//@ rewrite & mut MutexGuard < CoreState > => & mut CoreState
//@ rewrite Self :: clamp_selections (& mut state , $x) => Self :: clamp_selections (state , $x)
//@ rewrite for ($k , $v) in $$x . iter_mut () { $$b } => for vx_k in $$x . vx_snapshot () { let $k = & vx_k ; let $v = $$x . vx_at (& vx_k) ; $$b }
//@ rewrite for $v in $$x . values_mut () { $$b } => for vx_k in $$x . vx_snapshot () { let $v = $$x . vx_at (& vx_k) ; $$b }
//@ rewrite for $v in $x . iter_mut () { $$b } => for vx_j in 0 .. $x . len () { let $v = $x . vx_elem (vx_j) ; $$b }
//@ rewrite . buffers [$$k] => . buffers . vx_index ($$k)
//@ rewrite & buffers [$$k] => & buffers . vx_index ($$k)
//@ rewrite . views [$$k] => . views . vx_index ($$k)
//@ rewrite . clients [$$k] => . clients . vx_index ($$k)
//@ rewrite . selections [$$k] => . selections . vx_index ($$k)
//@ rewrite . get_mut ($$k) . unwrap () => . vx_at ($$k)
//@ if !tell
//@ rewrite format ! ($$x) => vx_any_text ()
//@ rewrite self . append_to ($n , $m + $x) => self . append_to ($n , vx_any_text ())
//@ end
//@ if tell
//@ rewrite self . append_to ($n , $m + $x) => self . append_to ($n , vx_joined ($m , $x))
//@ end
//@ rewrite moved |= $$x ; => if $$x { moved = true ; }
//@ rewrite & Path => & PathBuf
//@ rewrite vec ! [$$x] => vx_one ($$x)
//@ rewrite self . notify_view_update (self . clients_with_buffer ($$x)) ; => let vx_who = self . clients_with_buffer ($$x) ; self . notify_view_update (vx_who) ;
//@ rewrite let CoreState { buffers , clients , .. } = & mut * * state ; => let buffers = & state . buffers ; let clients = & mut state . clients ;
//@ rewrite for $v in $$x . get_mut ($$k) . into_iter () . flatten () { $$b } => if let Some (vx_l) = $$x . get_mut ($$k) { for vx_j in 0 .. vx_l . len () { let $v = vx_l . vx_elem (vx_j) ; $$b } }
//@ rewrite $x . retain (| $v , _ | $$c) ; => for vx_k in $x . vx_snapshot () { let $v = & vx_k ; if ! ($$c) { $x . remove ($v) ; } }
//@ source core/src/editor/core.rs
//@ const BUFFER_DEBUG
//@ const BUFFER_SCRATCH
//@ verus
type Sels = Seq<Selection>;
fn vx_copy<T>(t: &T) -> (r: T)
    ensures r == *t
{ t.vx_clone() }
fn vx_one<T>(t: T) -> (r: Vec<T>)
    ensures r@ == seq![t]
{ let mut v = Vec::new(); v.push(t); v }
/// some text: what messages say is no part of the property
#[verifier::external_body]
fn vx_any_text() -> String { unimplemented!() }
fn vx_same(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ broadcast use axiom_str_ext; *a == *b }
/// element i of a vector, to be changed in place
trait VxElem<T> {
    spec fn vx_s(&self) -> Seq<T>;
    fn vx_elem(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).vx_s().len()
        ensures *r == old(self).vx_s()[i as int], final(self).vx_s() == old(self).vx_s().update(i as int, *final(r));
}
impl<T> VxElem<T> for Vec<T> {
    spec fn vx_s(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_elem(&mut self, i: usize) -> (r: &mut T) { unimplemented!() }
}
/// assumed: a text and what is appended to it fit in memory
#[verifier::external_body]
fn vx_fits(t: &PieceTable, s: &String)
    ensures t.bytes().len() + sbytes(s@).len() <= CAP()
{ unimplemented!() }
// ---- trusted: files -------------------------------------------------------------------
#[verifier::external_body]
struct IoError { _p: u8 }
#[verifier::external_body]
struct File { _p: u8 }
impl VxShow for IoError {
    uninterp spec fn vx_shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_show_to(&self, f: &mut VxFormatter) { unimplemented!() }
}
/// reading file p gave text t
uninterp spec fn held(p: PathBuf, t: Seq<char>) -> bool;
/// file p could not be read
uninterp spec fn unread(p: PathBuf) -> bool;
uninterp spec fn absolute(p: PathBuf) -> bool;
uninterp spec fn under_dir(p: PathBuf, q: PathBuf) -> PathBuf;
uninterp spec fn joined_text(p: PathBuf, t: Seq<char>) -> PathBuf;
/// the system's name for file p is q
uninterp spec fn canon(p: PathBuf, q: PathBuf) -> bool;
/// the directory ced runs in
uninterp spec fn here(p: PathBuf) -> bool;
/// the clock has shown time t
uninterp spec fn clock(t: SystemTime) -> bool;
/// time s lies before t
spec fn before(s: SystemTime, t: SystemTime) -> bool { time_order(s, t) is Less }
uninterp spec fn time_order(s: SystemTime, t: SystemTime) -> Ordering;
#[verifier::external_body]
broadcast proof fn axiom_time_order(s: SystemTime, t: SystemTime)
    ensures
        time_order(s, t) is Less <==> #[trigger] time_order(t, s) is Greater,
        time_order(t, s) is Equal <==> s == t,
{ }
impl PartialEq for SystemTime {
    #[verifier::external_body]
    fn eq(&self, o: &SystemTime) -> bool { unimplemented!() }
}
impl PartialOrd for SystemTime {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &SystemTime) -> Option<Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SystemTime {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &SystemTime) -> bool { time_order(*self, *o) is Equal }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for SystemTime {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    closed spec fn partial_cmp_spec(&self, o: &SystemTime) -> Option<Ordering> { Some(time_order(*self, *o)) }
}
/// file p was last changed at time t, as the system says
uninterp spec fn changed_at(p: PathBuf, t: SystemTime) -> bool;
/// the system does not say when p was last changed, or p is no file
uninterp spec fn undated(p: PathBuf) -> bool;
#[verifier::external_body]
fn current_dir() -> (r: Result<PathBuf, IoError>)
    ensures r matches Ok(p) ==> here(p)
{ unimplemented!() }
impl PathBuf {
    #[verifier::external_body]
    fn is_absolute(&self) -> (r: bool)
        ensures r == absolute(*self)
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, p: &PathBuf)
        ensures *final(self) == under_dir(*old(self), *p)
    { unimplemented!() }
    #[verifier::external_body]
    fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures r matches Ok(p) ==> canon(*self, p)
    { unimplemented!() }
}
/// path.push(text)
#[verifier::external_body]
fn vx_push_text(p: &mut PathBuf, t: &str)
    ensures *final(p) == joined_text(*old(p), t@)
{ unimplemented!() }
impl File {
    uninterp spec fn path(&self) -> PathBuf;
    #[verifier::external_body]
    fn open(p: &PathBuf) -> (r: Result<File, IoError>)
        ensures r matches Ok(f) ==> f.path() == *p
    { unimplemented!() }
    #[verifier::external_body]
    fn read_to_string(&mut self, t: &mut String) -> (r: Result<usize, IoError>)
        ensures r is Ok ==> exists|x: Seq<char>| #[trigger] held(old(self).path(), x) && final(t)@ == old(t)@ + x
    { unimplemented!() }
}
impl SystemTime {
    #[verifier::external_body]
    fn now() -> (r: SystemTime)
        ensures clock(r)
    { unimplemented!() }
}
#[verifier::external_body]
struct Metadata { _p: u8 }
impl Metadata {
    uninterp spec fn of(&self) -> PathBuf;
    #[verifier::external_body]
    fn is_file(&self) -> (r: bool)
        ensures !r ==> undated(self.of())
    { unimplemented!() }
    #[verifier::external_body]
    fn modified(&self) -> (r: Result<SystemTime, IoError>)
        ensures match r { Ok(t) => changed_at(self.of(), t), Err(_) => undated(self.of()) }
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_metadata(p: &PathBuf) -> (r: Result<Metadata, IoError>)
    ensures match r { Ok(m) => m.of() == *p, Err(_) => undated(*p) }
{ unimplemented!() }
/// the text of a file; assumed: a file that is read again is no larger than SIDE
#[verifier::external_body]
fn vx_read_file(p: &PathBuf) -> (r: Result<String, IoError>)
    ensures match r { Ok(t) => sbytes(t@).len() <= SIDE() && held(*p, t@), Err(_) => unread(*p) }
{ unimplemented!() }
/// t += u
#[verifier::external_body]
fn vx_push_str(t: &mut String, u: &str)
    ensures final(t)@ == old(t)@ + u@
{ unimplemented!() }
#[verifier::external_body]
fn vx_ends_with(t: &String, c: char) -> (r: bool)
    ensures r == (t@.len() > 0 && t@.last() == c)
{ unimplemented!() }
// ---- trusted: the channel to the server --------------------------------------------
#[verifier::external_body]
struct Notifier { _p: u8 }
#[verifier::external_body]
struct EditorInfo { _p: u8 }
//@ if tell
/// what clients are told besides views; no client: all of them
enum Said { Message(Option<usize>, Seq<char>), Error(Option<usize>, Seq<char>), Info(usize, EditorInfo) }
/// String + &str
#[verifier::external_body]
fn vx_joined(a: String, b: &str) -> (r: String)
    ensures r@ == a@ + b@
{ unimplemented!() }
impl Notifier {
    uninterp spec fn said(&self) -> Seq<Said>;
    // what these send is proved in unit notify
    #[verifier::external_body]
    fn message(&mut self, client: Option<usize>, text: &str)
        ensures final(self).said() == old(self).said().push(Said::Message(client, text@))
    { unimplemented!() }
    #[verifier::external_body]
    fn error(&mut self, client: Option<usize>, text: &str)
        ensures final(self).said() == old(self).said().push(Said::Error(client, text@))
    { unimplemented!() }
    #[verifier::external_body]
    fn info_update(&mut self, client: usize, info: &EditorInfo)
        ensures final(self).said() == old(self).said().push(Said::Info(client, *info))
    { unimplemented!() }
}
//@ end
impl Notifier {
//@ if !tell
    #[verifier::external_body]
    fn message(&self, client: Option<usize>, text: &str) { unimplemented!() }
    #[verifier::external_body]
    fn error(&self, client: Option<usize>, text: &str) { unimplemented!() }
    #[verifier::external_body]
    fn info_update(&self, client: usize, info: &EditorInfo) { unimplemented!() }
//@ end
//@ if !pics
    #[verifier::external_body]
    fn view_update(&self, params: Vec<(usize, Vec<ViewParamsItem>)>) { unimplemented!() }
//@ end
//@ if pics
    /// what each client was last told its view shows
    uninterp spec fn told(&self) -> Map<usize, Seq<ViewParamsItem>>;
    #[verifier::external_body]
    fn view_update(&mut self, params: Vec<(usize, Vec<ViewParamsItem>)>)
        ensures final(self).told() == told_after(old(self).told(), params@)
    { unimplemented!() }
//@ end
}
//@ if tell
/// an error as it is shown (C17)
uninterp spec fn on_one_line(m: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn normalize_error_message(m: &str) -> (r: String)
    ensures r@ == on_one_line(m@)
{ unimplemented!() }
/// a line of *messages* or *errors*
spec fn noted(client: Option<usize>, text: Seq<char>) -> Seq<char> {
    (match client { Some(id) => dec(id as int), None => seq!['*'] }) + seq!['|'] + text + seq!['\n']
}
spec fn tagged(tag: Seq<char>, text: Seq<char>) -> Seq<char> { tag + seq![':', ' '] + text }
broadcast proof fn lemma_sum(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn lemma_sum_none(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a
{ assert(Seq::<char>::empty() + a =~= a); }
proof fn lemma_literals()
    ensures
        ""@ == Seq::<char>::empty(), "*"@ == seq!['*'], "|"@ == seq!['|'], "*|"@ == seq!['*'] + seq!['|'], "\n"@ == seq!['\n'], ": "@ == seq![':', ' '],
        "|\n"@ == seq!['|'] + seq!['\n'],
{
    reveal_strlit(""); reveal_strlit("*"); reveal_strlit("|"); reveal_strlit("*|"); reveal_strlit("\n"); reveal_strlit(": "); reveal_strlit("|\n");
    assert(""@ =~= Seq::<char>::empty()); assert("*"@ =~= seq!['*']); assert("|"@ =~= seq!['|']); assert("*|"@ =~= seq!['*'] + seq!['|']);
    assert("\n"@ =~= seq!['\n']); assert(": "@ =~= seq![':', ' ']); assert("|\n"@ =~= seq!['|'] + seq!['\n']);
}
//@ end
//@ if !tell
#[verifier::external_body]
fn normalize_error_message(m: &str) -> String { unimplemented!() }
//@ end
//@ enum Error Debug
//@ struct ClientContext
//@ struct CoreState
//@ struct Core
//@ enum CursorTarget
//@ verus
//@ if pics
// ---- what clients were told of their views (C24) --------------------------------------------
spec fn told_after(t: Map<usize, Seq<ViewParamsItem>>, ps: Seq<(usize, Vec<ViewParamsItem>)>) -> Map<usize, Seq<ViewParamsItem>>
    decreases ps.len()
{
    if ps.len() == 0 { t } else { told_after(t, ps.drop_last()).insert(ps.last().0, ps.last().1@) }
}
/// p says what view v shows
#[verifier::opaque]
spec fn says(p: Seq<ViewParamsItem>, v: View, bs: Bufs, ss: Picked) -> bool {
    p.len() == v.0.bkeys().len() && forall|i: int| 0 <= i < p.len() ==> item_ok(#[trigger] p[i], group_of(v, i), bs, ss)
}
/// p says what client id sees in this state
spec fn says_of(p: Seq<ViewParamsItem>, s: CoreState, id: usize) -> bool {
    let c = s.clients.ids()[id];
    says(p, c.view, s.buffers, Some(c.selections.m()[vkey(c.view)]))
}
impl Core {
    /// what client id was last told its view shows is what it shows
    spec fn current(&self, id: usize) -> bool {
        self.state.clients.ids().contains_key(id) && self.notifier.told().contains_key(id) && says_of(self.notifier.told()[id], self.state, id)
    }
}
spec fn told_same(o: Notifier, c: Notifier, id: usize) -> bool {
    o.told().contains_key(id) == c.told().contains_key(id) && o.told()[id] == c.told()[id]
}
/// whoever had a true picture has one still
spec fn keeps(o: Core, c: Core) -> bool {
    forall|id: usize| #[trigger] c.state.clients.ids().contains_key(id) && o.current(id) ==> c.current(id)
}
/// nothing has changed of what client id sees
spec fn pic_kept(o: CoreState, c: CoreState, id: usize) -> bool {
    let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
    let k = vkey(p.view);
    &&& o.clients.ids().contains_key(id) && c.clients.ids().contains_key(id)
    &&& q.view == p.view
    &&& forall|n: Seq<char>| #[trigger] vset(p.view).contains(n) ==> p.names(k).contains(n) && q.names(k).contains(n) && q.sels(k, n) == p.sels(k, n)
            && text_of(c.buffers, n) == text_of(o.buffers, n)
}
proof fn lemma_frame(o: Core, c: Core, id: usize)
    requires o.current(id), pic_kept(o.state, c.state, id), told_same(o.notifier, c.notifier, id), o.state.clients.ids()[id].view.wf()
    ensures c.current(id)
{
    broadcast use BTreeMap::axiom_keys;
    reveal(says);
    let (p, q) = (o.state.clients.ids()[id], c.state.clients.ids()[id]);
    let v = p.view;
    let k = vkey(v);
    let (so, sc) = (Some(p.selections.m()[k]), Some(q.selections.m()[k]));
    let ps = o.notifier.told()[id];
    assert forall|i: int| 0 <= i < ps.len() implies item_ok(#[trigger] ps[i], group_of(v, i), c.state.buffers, sc) by {
        let g = group_of(v, i);
        assert(item_ok(ps[i], g, o.state.buffers, so));
        assert(v.groups().contains_key(g.k));
        assert(vset(v).contains(g.k));
        assert(group_ok(g.k, v.groups()[g.k]));
        assert(p.sels(k, g.k) == q.sels(k, g.k));
        assert forall|j: int| 0 <= j < g.ls.len() implies lens_shown(#[trigger] ps[i].lenses@[j], g.ls[j], c.state.buffers, sc) by {
            assert(lens_shown(ps[i].lenses@[j], g.ls[j], o.state.buffers, so));
            assert(g.ls[j].buffer@ == g.k);
        }
    }
}
proof fn lemma_keeps(o: Core, c: Core)
    requires
        forall|id: usize| #[trigger] c.state.clients.ids().contains_key(id) ==>
            c.current(id) || told_same(o.notifier, c.notifier, id) && pic_kept(o.state, c.state, id) && o.state.clients.ids()[id].view.wf(),
    ensures keeps(o, c)
{
    assert forall|id: usize| #[trigger] c.state.clients.ids().contains_key(id) && o.current(id) implies c.current(id) by {
        if !c.current(id) { lemma_frame(o, c, id); }
    }
}
proof fn lemma_told_after(t: Map<usize, Seq<ViewParamsItem>>, ps: Seq<(usize, Vec<ViewParamsItem>)>, s: CoreState, id: usize)
    requires forall|j: int| 0 <= j < ps.len() ==> says_of((#[trigger] ps[j]).1@, s, ps[j].0)
    ensures ({
        let r = told_after(t, ps);
        if exists|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).0 == id { r.contains_key(id) && says_of(r[id], s, id) }
        else { r.contains_key(id) == t.contains_key(id) && r[id] == t[id] }
    })
    decreases ps.len()
{
    if ps.len() > 0 {
        let qs = ps.drop_last();
        lemma_told_after(t, qs, s, id);
        assert forall|j: int| 0 <= j < qs.len() implies says_of((#[trigger] qs[j]).1@, s, qs[j].0) by { assert(qs[j] == ps[j]); }
        if exists|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).0 == id {
            let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).0 == id;
            if ps.last().0 != id { assert(j < qs.len()); assert(qs[j].0 == id); } else { assert(says_of(ps[ps.len() - 1].1@, s, ps[ps.len() - 1].0)); }
        } else {
            assert(ps[ps.len() - 1].0 != id);
            assert(forall|j: int| 0 <= j < qs.len() ==> (#[trigger] qs[j]) == ps[j]);
        }
    }
}
/// nothing that client id sees is among what has happened
proof fn lemma_pic_of(o: CoreState, c: CoreState, id: usize, xs: Set<Seq<char>>, bad: Set<Seq<char>>, ys: Set<Seq<char>>)
    requires
        o.parts(xs, bad, ys), o.clients.ids().contains_key(id), c.clients.ids().contains_key(id), c.clients.ids()[id].view == o.clients.ids()[id].view,
        !xs.contains(vkey(o.clients.ids()[id].view)), !ys.contains(vkey(o.clients.ids()[id].view)),
        forall|n: Seq<char>| #[trigger] vset(o.clients.ids()[id].view).contains(n) ==> {
            let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
            let k = vkey(p.view);
            &&& p.has(k, n) ==> q.has(k, n) && q.sels(k, n) == p.sels(k, n)
            &&& o.buffers.m().contains_key(n) ==> text_of(c.buffers, n) == text_of(o.buffers, n)
        },
    ensures pic_kept(o, c, id), o.clients.ids()[id].view.wf()
{
    let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
    let k = vkey(p.view);
    assert(p.view_ok(o.views, ys) && p.names_ok(o.views, xs));
    assert(p.keys().contains(k) <==> o.views.m().contains_key(k));
    assert forall|n: Seq<char>| #[trigger] vset(p.view).contains(n) implies p.names(k).contains(n) && q.names(k).contains(n) && q.sels(k, n) == p.sels(k, n)
            && text_of(c.buffers, n) == text_of(o.buffers, n) by {
        assert(p.has(k, n));
        assert(vset(o.views.m()[k]).contains(n));
        assert(o.buffers.m().contains_key(n));
        assert(q.has(k, n));
    }
}
/// what happened to buffers `ns` and to nothing else that client id sees
proof fn lemma_pic(o: CoreState, c: CoreState, id: usize, ns: Set<Seq<char>>)
    requires
        o.ok(), o.clients.ids().contains_key(id), c.clients.ids().contains_key(id), c.clients.ids()[id].view == o.clients.ids()[id].view,
        forall|n: Seq<char>| #[trigger] vset(o.clients.ids()[id].view).contains(n) ==> !ns.contains(n),
        forall|k: Seq<char>, n: Seq<char>| #[trigger] o.clients.ids()[id].has(k, n) && !ns.contains(n)
            ==> c.clients.ids()[id].has(k, n) && c.clients.ids()[id].sels(k, n) == o.clients.ids()[id].sels(k, n),
        forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && !ns.contains(n) ==> text_of(c.buffers, n) == text_of(o.buffers, n),
    ensures pic_kept(o, c, id), o.clients.ids()[id].view.wf()
{ lemma_pic_of(o, c, id, none(), none(), none()); }
/// the client does not look at buffer n, and only n has changed
proof fn lemma_unseen(o: Core, c: Core, id: usize, n: Seq<char>)
    requires
        o.state.ok(), o.current(id), c.state.clients.ids().contains_key(id), c.state.clients.ids()[id].view == o.state.clients.ids()[id].view,
        !vset(o.state.clients.ids()[id].view).contains(n), told_same(o.notifier, c.notifier, id),
        forall|k: Seq<char>, m: Seq<char>| m != n && #[trigger] o.state.clients.ids()[id].has(k, m)
            ==> c.state.clients.ids()[id].has(k, m) && c.state.clients.ids()[id].sels(k, m) == o.state.clients.ids()[id].sels(k, m),
        forall|m: Seq<char>| m != n && #[trigger] o.state.buffers.m().contains_key(m) ==> text_of(c.state.buffers, m) == text_of(o.state.buffers, m),
    ensures c.current(id)
{
    lemma_pic(o.state, c.state, id, set![n]);
    lemma_frame(o, c, id);
}
/// everyone who had a true picture has one still, and so have those who looked at view k
spec fn redirected(o: Core, c: Core, k: Seq<char>) -> bool {
    forall|id: usize| #[trigger] c.state.clients.ids().contains_key(id) && (vkey(o.state.clients.ids()[id].view) == k || o.current(id)) ==> c.current(id)
}
//@ end
// ---- the state that has to stay consistent -------------------------------------------
spec fn vkey(v: View) -> Seq<char> { key_of(v.0.bkeys(), v.groups()) }
spec fn vset(v: View) -> Set<Seq<char>> { v.groups().dom() }
/// it shows whole buffers
spec fn whole(v: View) -> bool {
    forall|k: Seq<char>, m: int| v.groups().contains_key(k) && 0 <= m < v.groups()[k].0@.len() ==> (#[trigger] v.groups()[k].0@[m]).focus is Whole
}
/// the selection lies within the text
spec fn sel_in(s: Selection, b: Seq<u8>) -> bool {
    s.target_col >= 1
    && if b.len() == 0 { s.anchor == 0 && s.cursor == 0 } else { s.anchor < b.len() && s.cursor < b.len() }
}
spec fn list_in(l: Sels, b: Seq<u8>) -> bool { l.len() == 1 && sel_in(l[0], b) }
spec fn text_of(bs: HashMap<String, Buffer>, n: Seq<char>) -> Seq<u8> { bs.m()[n].content.bytes() }
impl ClientContext {
    /// the views there are selections for
    spec fn keys(&self) -> Set<Seq<char>> { self.selections.m().dom() }
    /// the buffers of view k there are selections for
    spec fn names(&self, k: Seq<char>) -> Set<Seq<char>> { self.selections.m()[k].m().dom() }
    spec fn sels(&self, k: Seq<char>, n: Seq<char>) -> Sels { self.selections.m()[k].m()[n]@ }
    /// there are selections for buffer n of view k
    spec fn has(&self, k: Seq<char>, n: Seq<char>) -> bool { self.keys().contains(k) && self.names(k).contains(n) }
    /// every selection lies within the text of its buffer; those in the buffers `bad` may not (yet)
    spec fn lists_ok(&self, bs: HashMap<String, Buffer>, bad: Set<Seq<char>>) -> bool {
        forall|k: Seq<char>, n: Seq<char>| #[trigger] self.has(k, n) ==> bs.m().contains_key(n)
            && (if bad.contains(n) { loose(self.sels(k, n)) } else { list_in(self.sels(k, n), text_of(bs, n)) })
    }
    /// there are selections for exactly the buffers of the views, those of the views `xs` aside
    spec fn names_ok(&self, vs: StackMap<String, View>, xs: Set<Seq<char>>) -> bool {
        forall|k: Seq<char>| !xs.contains(k) ==> (#[trigger] self.keys().contains(k) <==> vs.m().contains_key(k))
            && (vs.m().contains_key(k) ==> self.names(k) == vset(vs.m()[k]))
    }
    /// it looks at an existing view, or one of `ys`
    spec fn view_ok(&self, vs: StackMap<String, View>, ys: Set<Seq<char>>) -> bool {
        &&& self.view.wf() && whole(self.view)
        &&& !ys.contains(vkey(self.view)) ==> vs.m().contains_key(vkey(self.view)) && vset(self.view) == vset(vs.m()[vkey(self.view)])
    }
}
spec fn loose(l: Sels) -> bool { l.len() == 1 && l[0].target_col >= 1 }
spec fn none() -> Set<Seq<char>> { Set::<Seq<char>>::empty() }
impl CoreState {
    spec fn buffers_ok(&self) -> bool {
        forall|n: Seq<char>| #[trigger] self.buffers.m().contains_key(n) ==> self.buffers.m()[n].content.wf()
    }
    /// every view is known by its key and shows existing buffers
    spec fn views_ok(&self) -> bool {
        forall|k: Seq<char>| #[trigger] self.views.m().contains_key(k) ==> {
            &&& self.views.m()[k].wf() && whole(self.views.m()[k]) && vkey(self.views.m()[k]) == k
            &&& forall|n: Seq<char>| #[trigger] vset(self.views.m()[k]).contains(n) ==> self.buffers.m().contains_key(n)
        }
    }
    /// clients, views, buffers and selections fit together, save that selections for views `xs`
    /// may be missing or too many, those in buffers `bad` out of the text, and clients look at
    /// views `ys` that are no more
    spec fn parts(&self, xs: Set<Seq<char>>, bad: Set<Seq<char>>, ys: Set<Seq<char>>) -> bool {
        &&& self.buffers_ok() && self.views_ok()
        &&& forall|id: usize| #[trigger] self.clients.ids().contains_key(id) ==> {
            let c = self.clients.ids()[id];
            c.view_ok(self.views, ys) && c.names_ok(self.views, xs) && c.lists_ok(self.buffers, bad)
        }
    }
    /// C09
    spec fn ok(&self) -> bool { self.parts(none(), none(), none()) }
    spec fn has_view(&self) -> bool { self.views.order().len() > 0 }
    /// the clients, what they look at and the views are what they were; so are the texts of the
    /// buffers, apart from `n`
    spec fn same_but(&self, o: CoreState, n: Seq<char>) -> bool {
        &&& self.views == o.views
//@ if sels
        &&& sels_stay(o, *self)
//@ end
        &&& self.clients.ids().dom() == o.clients.ids().dom()
//@ if looks
        &&& self.clients.seats() == o.clients.seats()
//@ end
        &&& forall|id: usize| #[trigger] self.clients.ids().contains_key(id) ==> self.clients.ids()[id].view == o.clients.ids()[id].view
        &&& forall|x: Seq<char>| #[trigger] o.buffers.m().contains_key(x) ==> self.buffers.m().contains_key(x)
        &&& forall|x: Seq<char>| #[trigger] self.buffers.m().contains_key(x) && x != n ==> o.buffers.m().contains_key(x) && self.buffers.m()[x] == o.buffers.m()[x]
    }
}
//@ if sels
//@ verus
// ---- where the selections are (C26) -------------------------------------------------------
/// r is where the grapheme begins that is at x
spec fn starts(b: Seq<u8>, x: int, r: int) -> bool {
    if x >= b.len() { r == 0 } else { exists|p: Coords| coord_of(b, p, x) && r == #[trigger] offset_of(b, p) }
}
/// no further than the last byte
spec fn no_further(b: Seq<u8>, x: int) -> int { let l = if b.len() == 0 { 0 } else { b.len() - 1 }; if x <= l { x } else { l } }
/// c is selection o in a text that is b now: its ends are at graphemes there
spec fn sel_clamped(b: Seq<u8>, o: Selection, c: Selection) -> bool {
    c.target_col == o.target_col && starts(b, no_further(b, o.anchor as int), c.anchor as int) && starts(b, no_further(b, o.cursor as int), c.cursor as int)
}
/// the selections of q for buffer n of view k are those p had for view `from`, or new ones
spec fn got(p: ClientContext, q: ClientContext, k: Seq<char>, n: Seq<char>, from: Option<Seq<char>>) -> bool {
    if from is Some && p.has(from->0, n) { q.sels(k, n) == p.sels(from->0, n) } else { fresh_list(q.sels(k, n)) }
}
/// all selections stay where they are; those for new views are new
spec fn sels_stay(o: CoreState, c: CoreState) -> bool {
    forall|x: usize, k: Seq<char>, n: Seq<char>| c.clients.ids().contains_key(x) && #[trigger] c.clients.ids()[x].has(k, n) ==> o.clients.ids().contains_key(x) && got(o.clients.ids()[x], c.clients.ids()[x], k, n, Some(k))
}
/// so do those for other views than `gone`
spec fn sels_without(o: CoreState, c: CoreState, gone: Seq<char>) -> bool {
    forall|x: usize, k: Seq<char>, n: Seq<char>| c.clients.ids().contains_key(x) && #[trigger] c.clients.ids()[x].has(k, n) ==> o.clients.ids().contains_key(x) && got(o.clients.ids()[x], c.clients.ids()[x], k, n, if k == gone { None } else { Some(k) })
}
/// where the selections for view k come from when v takes the place of view `gone`: those who look at it take
/// theirs along; the others keep what they have for v, if they have something
spec fn moved_from(p: ClientContext, gone: Seq<char>, v: View, k: Seq<char>) -> Option<Seq<char>> {
    if k == vkey(v) && (vkey(p.view) == gone || !p.keys().contains(k)) { Some(gone) } else if k == gone { None } else { Some(k) }
}
spec fn sels_swapped(o: CoreState, c: CoreState, gone: Seq<char>, v: View) -> bool {
    forall|x: usize, k: Seq<char>, n: Seq<char>| c.clients.ids().contains_key(x) && #[trigger] c.clients.ids()[x].has(k, n) ==> o.clients.ids().contains_key(x) && got(o.clients.ids()[x], c.clients.ids()[x], k, n, moved_from(o.clients.ids()[x], gone, v, k))
}
/// view k has become v, if v is another view
spec fn sels_changed(o: CoreState, c: CoreState, k: Seq<char>, v: View) -> bool {
    if vkey(v) == k { c == o } else { sels_swapped(o, c, k, v) }
}
/// the selections in buffer b are in its new text, the others stay
spec fn sels_refit(o: CoreState, c: CoreState, b: Seq<char>) -> bool {
    forall|x: usize, k: Seq<char>, n: Seq<char>| c.clients.ids().contains_key(x) && #[trigger] c.clients.ids()[x].has(k, n) ==> o.clients.ids().contains_key(x) && {
        let (p, q) = (o.clients.ids()[x], c.clients.ids()[x]);
        if n == b && p.has(k, n) { list_clamped(p.sels(k, n), q.sels(k, n), text_of(c.buffers, n)) } else { got(p, q, k, n, Some(k)) }
    }
}
/// a new client takes over what p has, if there is anyone
spec fn sels_taken(s: CoreState, q: ClientContext) -> bool {
    forall|k: Seq<char>, n: Seq<char>| #[trigger] q.has(k, n) ==> if s.clients.seats().len() > 0 {
        s.clients.ids()[s.clients.seats()[0]].has(k, n) && q.sels(k, n) == s.clients.ids()[s.clients.seats()[0]].sels(k, n)
    } else { fresh_list(q.sels(k, n)) }
}
//@ end
//@ if sels
//@ verus
/// with the same views there are selections for the same buffers
proof fn lemma_same_has(o: CoreState, c: CoreState, x: usize, k: Seq<char>, n: Seq<char>)
    requires o.ok(), c.ok(), c.views.m() == o.views.m(), o.clients.ids().contains_key(x), c.clients.ids().contains_key(x)
    ensures c.clients.ids()[x].has(k, n) <==> o.clients.ids()[x].has(k, n)
{
    let (p, q) = (o.clients.ids()[x], c.clients.ids()[x]);
    assert(p.names_ok(o.views, none()) && q.names_ok(c.views, none()));
    assert(p.keys().contains(k) <==> o.views.m().contains_key(k));
    assert(q.keys().contains(k) <==> c.views.m().contains_key(k));
}
//@ end
//@ if looks
//@ verus
// ---- what each client looks at (C27) ------------------------------------------------------
spec fn eye(s: CoreState, id: usize) -> Seq<char> { vkey(s.clients.ids()[id].view) }
/// v is the view of buffer n alone
spec fn only(v: View, n: Seq<char>) -> bool {
    v.wf() && vset(v) == set![n] && v.groups()[n].0@.len() == 1 && v.groups()[n].0@[0].focus is Whole
}
/// the clients `who` look at view k, the others at what they looked at; the views are `vs`, latest first
spec fn looking(o: CoreState, c: CoreState, vs: Seq<Seq<char>>, who: spec_fn(usize) -> bool, k: Seq<char>) -> bool {
    &&& c.clients.seats() == o.clients.seats() && c.views.order() == vs
    &&& forall|x: usize| #[trigger] c.clients.ids().contains_key(x) ==> o.clients.ids().contains_key(x) && eye(c, x) == (if who(x) { k } else { eye(o, x) })
}
/// client id looks at view k now, which has been made if it was not there
spec fn turned(o: CoreState, c: CoreState, id: usize, k: Seq<char>) -> bool {
    looking(o, c, if o.views.m().contains_key(k) { o.views.order() } else { used(o.views.order(), k) }, |x: usize| x == id, k)
}
/// client id looks at view k now, which is the latest
spec fn turned_latest(o: CoreState, c: CoreState, id: usize, k: Seq<char>) -> bool {
    looking(o, c, used(o.views.order(), k), |x: usize| x == id, k)
}
/// the views after k has gone: if none is left, the scratch buffer is shown
spec fn views_left(vs: Seq<Seq<char>>, k: Seq<char>, w: View) -> Seq<Seq<char>> {
    if forgotten(vs, k).len() > 0 { forgotten(vs, k) } else { seq![vkey(w)] }
}
/// whoever looked at view k looks at the latest of those left in `vs`
spec fn left_for(o: CoreState, c: CoreState, vs: Seq<Seq<char>>, k: Seq<char>) -> bool {
    exists|w: View| (forgotten(vs, k).len() == 0 ==> only(w, BUFFER_SCRATCH@)) && #[trigger] left_with(o, c, vs, k, w)
}
spec fn left_with(o: CoreState, c: CoreState, vs: Seq<Seq<char>>, k: Seq<char>, w: View) -> bool {
    looking(o, c, views_left(vs, k, w), |x: usize| eye(o, x) == k, views_left(vs, k, w)[0])
}
/// view v has taken the place of view k
spec fn swapped(o: CoreState, c: CoreState, k: Seq<char>, v: View) -> bool {
    left_for(o, c, if exists|n: Seq<char>| vset(v).contains(n) { used(o.views.order(), vkey(v)) } else { o.views.order() }, k)
}
/// view k has become v, if v is another view
spec fn changed_to(o: CoreState, c: CoreState, k: Seq<char>, v: View) -> bool {
    if vkey(v) == k { c == o } else { swapped(o, c, k, v) }
}
//@ end
//@ verus
proof fn lemma_sbytes_nl()
    ensures sbytes(seq!['\n']) == seq![10u8]
{
    let s = seq!['\n'];
    vstd::utf8::is_ascii_chars_encode_utf8(s);
    assert(s[0] as u8 == sbytes(s)[0]);
    assert(sbytes(s) =~= seq![10u8]);
}
impl Buffer {
    /// assumed where a file is read again: the text is that of a String and no larger than SIDE
    spec fn readable(&self) -> bool {
        self.source is File ==> self.content.bytes().len() <= SIDE() && sbytes(lossy(self.content.bytes())) == self.content.bytes()
    }
}
/// what a buffer holds that has been made from text t
spec fn from_text(t: Seq<char>) -> Seq<u8> { if t.len() == 0 { seq![10u8] } else { sbytes(t) } }
/// a file's text as a buffer shows it: its last line is ended
spec fn ended(t: Seq<char>) -> Seq<char> { if t.len() > 0 && t.last() == '\n' { t } else { t.push('\n') } }
/// the file that filename names
spec fn names_file(filename: PathBuf, p: PathBuf) -> bool {
    if absolute(filename) { p == filename } else { exists|d: PathBuf| #[trigger] here(d) && canon(under_dir(d, filename), p) }
}
/// buffer b is what has been read of the file
spec fn opened(b: Buffer, filename: PathBuf) -> bool {
    &&& b.last_sync matches Some(s) && clock(s)
    &&& b.source matches BufferSource::File(p) && names_file(filename, p) && exists|t: Seq<char>| #[trigger] held(p, t) && b.content.bytes() == sbytes(ended(t))
}
/// the file of b has not changed since b was read
spec fn in_sync(b: Buffer) -> bool {
    match b.source {
        BufferSource::Scratch(_) => true,
        BufferSource::File(p) => b.last_sync matches Some(s) && exists|t: SystemTime| #[trigger] changed_at(p, t) && before(t, s),
    }
}
/// the file of b has changed since b was read, or may have
spec fn stale(b: Buffer) -> bool {
    match b.source {
        BufferSource::Scratch(_) => false,
        BufferSource::File(p) => b.last_sync is None || undated(p) || exists|t: SystemTime| #[trigger] changed_at(p, t) && !before(t, b.last_sync->0),
    }
}
/// b has been loaded again, if it had to be: the result c holds what the file held
spec fn loaded(b: Buffer, c: Buffer, r: bool) -> bool {
    &&& c.source == b.source
    &&& match b.source {
        BufferSource::Scratch(_) => r && c == b,
        BufferSource::File(p) => if r {
            stale(b) && (exists|t: Seq<char>| #[trigger] held(p, t) && c.content.bytes() == sbytes(t)) && (c.last_sync matches Some(t) && clock(t))
        } else { c == b && (in_sync(b) || unread(p)) }
    }
}
//@ source core/src/editor/buffer.rs
//@ fn Buffer::is_synced
//@ rewrite fs :: metadata (path) => vx_metadata (path)
//@ if texts
    ensures if result { in_sync(*self) } else { stale(*self) }
//@ entry
    proof { broadcast use axiom_time_order; }
//@ end
//@ fn Buffer::new_scratch
    ensures
        result.content.wf(),
        result.content.bytes().len() > 0, result.source is Scratch,
//@ if texts
        result.content.bytes() == from_text(content@), result.source == BufferSource::Scratch(name), result.last_sync is None,
//@ end
//@ entry
    proof { lemma_sbytes_empty(content@); lemma_sbytes_nl(); }
    let vx_n = content.len();
//@ fn Buffer::open_file
//@ rewrite io :: Result < Buffer > => Result < Buffer , IoError >
//@ rewrite filename . to_owned () => vx_copy (filename)
//@ rewrite file_content += $x ; => vx_push_str (& mut file_content , $x) ;
//@ rewrite file_content . ends_with ($x) => vx_ends_with (& file_content , $x)
    ensures
        result matches Ok(b) ==> b.content.wf() && b.content.bytes().len() > 0,
//@ if texts
        result matches Ok(b) ==> opened(b, *filename),
//@ exit
    proof {
        if vx_ret is Ok {
            let b = vx_ret->Ok_0;
            assert(b.content.bytes() == sbytes(ended(read)));
            assert(b.source == BufferSource::File(ap));
            assert(held(ap, read));
            assert(names_file(*filename, ap));
            assert(b.last_sync is Some && clock(b.last_sync->0));
            assert(b.source matches BufferSource::File(p) && names_file(*filename, p));
            assert(exists|t: Seq<char>| #[trigger] held(ap, t) && b.content.bytes() == sbytes(ended(t)));
            assert(b.last_sync matches Some(t) && clock(t));
            assert(opened(b, *filename));
            assert(b.content.wf());
            assert(b.content.bytes().len() > 0);
        }
    }
//@ end
//@ before Ok
    let vx_n = file_content.len();
    proof { lemma_sbytes_empty(file_content@); reveal_strlit("\n"); }
//@ if texts
//@ after file . read_to_string (& mut file_content) ?
    let ghost ap = absolute_path;
    let ghost read = file_content@;
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }
//@ before Ok
    proof {
        assert(file_content@ =~= ended(read));
        assert(held(absolute_path, read)) by {
            let x = choose|x: Seq<char>| #[trigger] held(absolute_path, x) && read == Seq::<char>::empty() + x;
            assert(Seq::<char>::empty() + x =~= x);
        }
        assert(names_file(*filename, absolute_path));
    }
//@ end
//@ fn Buffer::load_from_disk
//@ rewrite fs :: read_to_string (path) => vx_read_file (path)
    requires old(self).content.wf(), old(self).readable()
    ensures
        final(self).content.wf(),
        !result ==> final(self).content == old(self).content,
//@ if texts
        loaded(*old(self), *final(self), result),
//@ end
//@ fn Buffer::append
    requires old(self).content.wf()
    ensures
        final(self).content.wf(), final(self).content.bytes().len() >= old(self).content.bytes().len(),
//@ if texts
        final(self).content.bytes() == old(self).content.bytes() + sbytes(text@),
        final(self).source == old(self).source, final(self).last_sync == old(self).last_sync,
//@ end
//@ entry
    vx_fits(&self.content, &text);
//@ if texts
//@ verus
/// the text put at the end of buffer n, or the text it has been made from
spec fn put(o: CoreState, c: CoreState, n: Seq<char>, t: Seq<char>) -> bool {
    if o.buffers.m().contains_key(n) {
        &&& text_of(c.buffers, n) == text_of(o.buffers, n) + sbytes(t)
        &&& c.buffers.m()[n].source == o.buffers.m()[n].source && c.buffers.m()[n].last_sync == o.buffers.m()[n].last_sync
    } else { text_of(c.buffers, n) == from_text(t) && c.buffers.m()[n].source is Scratch }
}
/// buffer c is buffer o, perhaps with something put at its end
spec fn longer(o: Buffer, c: Buffer) -> bool {
    &&& c.source == o.source && c.last_sync == o.last_sync
    &&& exists|t: Seq<u8>| c.content.bytes() == #[trigger] (o.content.bytes() + t)
}
/// buffer n, if it was there, holds what it held, perhaps with something put at its end
spec fn grew(o: CoreState, c: CoreState, n: Seq<char>) -> bool {
    o.buffers.m().contains_key(n) ==> c.buffers.m().contains_key(n) && longer(o.buffers.m()[n], c.buffers.m()[n])
}
/// all buffers but n are what they were, and there are no others
spec fn but(o: CoreState, c: CoreState, n: Seq<char>) -> bool {
    forall|x: Seq<char>| x != n ==> (#[trigger] c.buffers.m().contains_key(x) <==> o.buffers.m().contains_key(x)) && (o.buffers.m().contains_key(x) ==> c.buffers.m()[x] == o.buffers.m()[x])
}
proof fn lemma_put(o: CoreState, c: CoreState, n: Seq<char>, t: Seq<char>)
    requires put(o, c, n, t), c.buffers.m().contains_key(n)
    ensures grew(o, c, n)
{ }
proof fn lemma_longer(a: Buffer, b: Buffer, c: Buffer)
    requires longer(a, b), longer(b, c)
    ensures longer(a, c)
{
    let t = choose|t: Seq<u8>| b.content.bytes() == #[trigger] (a.content.bytes() + t);
    let u = choose|t: Seq<u8>| c.content.bytes() == #[trigger] (b.content.bytes() + t);
    assert(c.content.bytes() =~= a.content.bytes() + (t + u));
}
proof fn lemma_longer_self(a: Buffer)
    ensures longer(a, a)
{ assert(a.content.bytes() + Seq::<u8>::empty() =~= a.content.bytes()); }
/// what `edit` makes of the buffer it is asked for
spec fn edited(o: CoreState, c: CoreState, n: Seq<char>, scratch: bool) -> bool {
    if o.buffers.m().contains_key(n) {
        if scratch { c.buffers.m()[n] == o.buffers.m()[n] } else { exists|r: bool| #[trigger] loaded(o.buffers.m()[n], c.buffers.m()[n], r) }
    } else if scratch { text_of(c.buffers, n) == seq![10u8] && c.buffers.m()[n].source is Scratch }
    else { opened(c.buffers.m()[n], joined_text(o.cwd, n)) }
}
//@ end
//@ source core/src/editor/core.rs
//@ fn Core::buffer_exists
    ensures result == self.state.buffers.m().contains_key(name@)
//@ fn Core::view_exists
    ensures result == self.state.views.m().contains_key(view_id@)
//@ fn Core::clients_with_buffer
    ensures
        forall|i: int| 0 <= i < result@.len() ==> self.state.clients.ids().contains_key(#[trigger] result@[i]),
        self.state.buffers.m().contains_key(name@) ==> forall|id: usize| #[trigger] self.state.clients.ids().contains_key(id) && vset(self.state.clients.ids()[id].view).contains(name@) ==> result@.contains(id),
//@ loop 0 before
    let ghost src = vx_it0@;
    let ghost ids = self.state.clients.ids();
//@ loop 0
    invariant
        vx_it0@.len() <= src.len(), vx_it0@ == src.skip(src.len() - vx_it0@.len()), ids == self.state.clients.ids(),
        forall|i: int| 0 <= i < src.len() ==> ids.contains_key(*(#[trigger] src[i]).0) && *src[i].1 == ids[*src[i].0],
        forall|i: int| 0 <= i < vx_acc0@.len() ==> ids.contains_key(#[trigger] vx_acc0@[i]),
        forall|i: int| 0 <= i < src.len() - vx_it0@.len() && vset(ids[*(#[trigger] src[i]).0].view).contains(name@) ==> vx_acc0@.contains(*src[i].0),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost acc = vx_acc0@;
//@ loop 0 end
    proof {
        assert forall|x: usize| #[trigger] acc.contains(x) implies vx_acc0@.contains(x) by {
            let i = acc.index_of(x);
            assert(vx_acc0@[i] == x);
        }
        if vx_acc0@.len() > acc.len() { assert(vx_acc0@[acc.len() as int] == vx_acc0@.last()); }
    }
//@ verus
/// the lists for buffer n of text b have been clamped
spec fn list_clamped(o: Sels, c: Sels, b: Seq<u8>) -> bool {
//@ if sels
    (forall|i: int| 0 <= i < o.len() ==> sel_clamped(b, #[trigger] o[i], c[i])) &&
//@ end
    c.len() == o.len() && forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).target_col >= 1 ==> sel_in(c[i], b)
}
spec fn map_clamped(o: HashMap<String, Vec<Selection>>, c: HashMap<String, Vec<Selection>>, n: Seq<char>, b: Seq<u8>) -> bool {
    &&& c.m().dom() == o.m().dom()
    &&& forall|x: Seq<char>| x != n && #[trigger] o.m().contains_key(x) ==> c.m()[x]@ == o.m()[x]@
    &&& o.m().contains_key(n) ==> list_clamped(o.m()[n]@, c.m()[n]@, b)
}
spec fn ctx_clamped(o: ClientContext, c: ClientContext, n: Seq<char>, b: Seq<u8>) -> bool {
    &&& c.view == o.view && c.keys() == o.keys()
    &&& forall|k: Seq<char>| #[trigger] o.keys().contains(k) ==> map_clamped(o.selections.m()[k], c.selections.m()[k], n, b)
}
spec fn clamped(o: CoreState, c: CoreState, n: Seq<char>, b: Seq<u8>) -> bool {
    &&& c.views == o.views && c.cwd == o.cwd
//@ if looks
    &&& c.clients.seats() == o.clients.seats()
//@ end
    &&& c.clients.ids().dom() == o.clients.ids().dom()
    &&& forall|id: usize| #[trigger] o.clients.ids().contains_key(id) ==> ctx_clamped(o.clients.ids()[id], c.clients.ids()[id], n, b)
}
proof fn lemma_clamped(o: CoreState, c: CoreState, n: Seq<char>, xs: Set<Seq<char>>, bad: Set<Seq<char>>, ys: Set<Seq<char>>)
    requires o.parts(xs, bad, ys), c.buffers == o.buffers, o.buffers.m().contains_key(n), clamped(o, c, n, text_of(o.buffers, n))
    ensures c.parts(xs, bad.remove(n), ys)
{
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies {
        let x = c.clients.ids()[id];
        x.view_ok(c.views, ys) && x.names_ok(c.views, xs) && x.lists_ok(c.buffers, bad.remove(n))
    } by {
        assert(o.clients.ids().contains_key(id));
        let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
        assert forall|k: Seq<char>| !xs.contains(k) implies (#[trigger] q.keys().contains(k) <==> c.views.m().contains_key(k))
            && (c.views.m().contains_key(k) ==> q.names(k) == vset(c.views.m()[k])) by { assert(p.keys().contains(k) <==> q.keys().contains(k)); }
        assert forall|k: Seq<char>, m: Seq<char>| #[trigger] q.has(k, m) implies c.buffers.m().contains_key(m)
            && (if bad.remove(n).contains(m) { loose(q.sels(k, m)) } else { list_in(q.sels(k, m), text_of(c.buffers, m)) }) by {
            assert(p.has(k, m));
        }
    }
}
//@ fn Core::clamp_selections
    requires old(state).buffers.m().contains_key(bufname@), old(state).buffers.m()[bufname@].content.wf()
    ensures
        final(state).buffers == old(state).buffers,
        clamped(*old(state), *final(state), bufname@, text_of(old(state).buffers, bufname@)),
//@ entry
    let ghost ids0 = state.clients.ids();
    let ghost b = text_of(state.buffers, bufname@);
//@ loop 0 before
    let ghost all = vx_it0@;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        all.no_duplicates(), forall|k: usize| ids0.contains_key(k) <==> #[trigger] all.contains(k),
//@ if looks
        clients.seats() == old(state).clients.seats(),
//@ end
        clients.ids().dom() == ids0.dom(),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> ctx_clamped(ids0[#[trigger] all[i]], clients.ids()[all[i]], bufname@, b),
        forall|i: int| all.len() - vx_it0@.len() <= i < all.len() ==> ids0[#[trigger] all[i]] == clients.ids()[all[i]],
        content.wf(), content.bytes() == b, max_offset == (if b.len() == 0 { 0 } else { b.len() - 1 }),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost n0 = all.len() - vx_it0@.len();
    let ghost cl0 = clients.ids();
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[n0 as int]); assert(all.contains(all[n0 as int])); } }
//@ loop 0 end
    proof {
        assert(clients.ids().dom() =~= ids0.dom());
        assert forall|i: int| 0 <= i < all.len() && i != n0 implies clients.ids()[#[trigger] all[i]] == cl0[all[i]] by { }
    }
//@ loop 0 after
    proof {
        assert forall|id: usize| #[trigger] ids0.contains_key(id) implies ctx_clamped(ids0[id], clients.ids()[id], bufname@, b) by {
            assert(all.contains(id));
        }
    }
//@ loop 1 before
    let ghost all1 = vx_it1@;
    let ghost c0 = *ctx;
//@ loop 1 entry
    let ghost n1 = all1.len() - vx_it1@.len();
    let ghost m0 = ctx.selections.m();
    proof { if vx_it1@.len() > 0 { assert(vx_it1@[0] == all1[n1 as int]); } }
//@ loop 1 end
    proof {
        assert(ctx.keys() =~= c0.keys());
        assert forall|i: int| 0 <= i < all1.len() && i != n1 implies ctx.selections.m()[(#[trigger] all1[i])@] == m0[all1[i]@] by { }
        assert(ctx.selections.m()[all1[n1 as int]@].m().dom() =~= c0.selections.m()[all1[n1 as int]@].m().dom());
    }
//@ loop 1 after
    proof {
        assert forall|k: Seq<char>| #[trigger] c0.keys().contains(k) implies map_clamped(c0.selections.m()[k], ctx.selections.m()[k], bufname@, b) by {
            assert(listed(all1, k));
        }
    }
//@ loop 1
    invariant
        vx_it1@.len() <= all1.len(), vx_it1@ == all1.skip(all1.len() - vx_it1@.len()),
        lists(all1, c0.keys()),
        ctx.view == c0.view, ctx.keys() == c0.keys(),
        forall|i: int| 0 <= i < all1.len() - vx_it1@.len() ==> map_clamped(c0.selections.m()[(#[trigger] all1[i])@], ctx.selections.m()[all1[i]@], bufname@, b),
        forall|i: int| all1.len() - vx_it1@.len() <= i < all1.len() ==> c0.selections.m()[(#[trigger] all1[i])@] == ctx.selections.m()[all1[i]@],
        content.wf(), content.bytes() == b, max_offset == (if b.len() == 0 { 0 } else { b.len() - 1 }),
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ loop 2 entry
    let ghost n2 = l0.len() - vx_it2@.len();
    proof { if vx_it2@.len() > 0 { assert(vx_it2@[0] == n2 as usize); } }
//@ loop 2 end
    proof {
        assert(vx_j == n2);
        assert(s.target_col == l0[n2 as int].target_col);
        assert(s.anchor <= max_offset && s.cursor <= max_offset);
        assert(vx_l@[n2 as int] == *s);
    }
//@ loop 2 before
    let ghost l0 = vx_l@;
//@ loop 2
    invariant
        vx_l@.len() == l0.len(), l0.len() <= usize::MAX,
        vx_it2@.len() <= l0.len(), vx_it2@ == Seq::new(l0.len(), |i: int| i as usize).skip(l0.len() - vx_it2@.len()),
//@ if sels
        forall|i: int| 0 <= i < l0.len() - vx_it2@.len() ==> sel_clamped(b, #[trigger] l0[i], vx_l@[i]),
//@ end
        forall|i: int| 0 <= i < l0.len() - vx_it2@.len() && (#[trigger] l0[i]).target_col >= 1 ==> sel_in(vx_l@[i], b),
        forall|i: int| l0.len() - vx_it2@.len() <= i < l0.len() ==> l0[i] == #[trigger] vx_l@[i],
        content.wf(), content.bytes() == b, max_offset == (if b.len() == 0 { 0 } else { b.len() - 1 }),
    ensures vx_it2@.len() == 0
    decreases vx_it2@.len()
//@ if sels
//@ loop 2 end
    assert(sel_clamped(b, l0[n2 as int], *s));
//@ end
//@ verus
/// buffer n has been replaced by b
spec fn scratched(o: CoreState, c: CoreState, n: Seq<char>, b: Buffer) -> bool {
    &&& b.content.wf() && b.content.bytes().len() > 0 && b.source is Scratch
    &&& c.buffers.m() == o.buffers.m().insert(n, b)
    &&& clamped(o, c, n, b.content.bytes())
}
proof fn lemma_replaced(o: CoreState, m: CoreState, n: Seq<char>, xs: Set<Seq<char>>, bad: Set<Seq<char>>, ys: Set<Seq<char>>)
    requires
        o.parts(xs, bad, ys), m.clients == o.clients, m.views == o.views,
        m.buffers.m() == o.buffers.m().insert(n, m.buffers.m()[n]), m.buffers.m()[n].content.wf(),
    ensures m.parts(xs, bad.insert(n), ys)
{
    assert forall|id: usize| #[trigger] m.clients.ids().contains_key(id) implies m.clients.ids()[id].lists_ok(m.buffers, bad.insert(n)) by {
        assert(o.clients.ids().contains_key(id));
    }
}
proof fn lemma_scratched(o: CoreState, c: CoreState, n: Seq<char>, b: Buffer, xs: Set<Seq<char>>, bad: Set<Seq<char>>, ys: Set<Seq<char>>)
    requires o.parts(xs, bad, ys), scratched(o, c, n, b)
    ensures c.parts(xs, bad.remove(n), ys)
{
    let m = CoreState { buffers: c.buffers, ..o };
    lemma_replaced(o, m, n, xs, bad, ys);
    assert(text_of(m.buffers, n) == b.content.bytes());
    lemma_clamped(m, c, n, xs, bad.insert(n), ys);
    assert(bad.insert(n).remove(n) =~= bad.remove(n));
}
//@ fn Core::notify_view_update
//@ rewrite let view = $$x . borrow () ; => let view = & $$x ;
//@ if !pics
    requires self.state.ok(), forall|i: int| 0 <= i < clients@.len() ==> self.state.clients.ids().contains_key(#[trigger] clients@[i])
//@ end
//@ if pics
//@ rewrite & self , clients => & mut self , clients
    requires old(self).state.ok(), forall|i: int| 0 <= i < clients@.len() ==> old(self).state.clients.ids().contains_key(#[trigger] clients@[i])
    ensures
        final(self).state == old(self).state,
        forall|id: usize| #[trigger] clients@.contains(id) ==> final(self).current(id),
        forall|id: usize| !clients@.contains(id) ==> #[trigger] told_same(old(self).notifier, final(self).notifier, id),
//@ exit
    proof {
        let ps = told_now;
        assert forall|id: usize| #[trigger] clients@.contains(id) implies self.current(id) by {
            lemma_told_after(old(self).notifier.told(), ps, self.state, id);
            let i = clients@.index_of(id);
            assert(ps[i].0 == id);
        }
        assert forall|id: usize| !clients@.contains(id) implies #[trigger] told_same(old(self).notifier, self.notifier, id) by {
            lemma_told_after(old(self).notifier.told(), ps, self.state, id);
            assert forall|j: int| 0 <= j < ps.len() implies (#[trigger] ps[j]).0 != id by { assert(clients@.contains(clients@[j])); }
        }
    }
//@ collect 0 Vec<(usize, Vec<ViewParamsItem>)>
//@ before self . notifier . view_update
    let ghost told_now = params@;
    assert(told_now.len() == clients@.len());
    assert forall|j: int| 0 <= j < told_now.len() implies (#[trigger] told_now[j]).0 == clients@[j] && says_of(told_now[j].1@, self.state, told_now[j].0) by {}
//@ loop 0 end
    proof {
        let (id, p) = vx_acc0@.last();
        reveal(says);
        let c = state.clients.ids()[id];
        assert(says_of(p@, *state, id));
    }
//@ end
//@ loop 0 before
    let ghost all = vx_it0@;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        state.ok(), forall|i: int| 0 <= i < all.len() ==> state.clients.ids().contains_key(*#[trigger] all[i]),
//@ if pics
        vx_acc0@.len() == all.len() - vx_it0@.len(),
        forall|j: int| 0 <= j < vx_acc0@.len() ==> (#[trigger] vx_acc0@[j]).0 == *all[j] && says_of(vx_acc0@[j].1@, *state, vx_acc0@[j].0),
//@ end
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    proof {
        if vx_it0@.len() > 0 {
            let id = *vx_it0@[0];
            assert(vx_it0@[0] == all[all.len() - vx_it0@.len()]);
            let c = state.clients.ids()[id];
            let k = vkey(c.view);
            assert(state.views.m().contains_key(k) && c.keys().contains(k));
            assert forall|n: Seq<char>| c.names(k).contains(n) implies list_in(#[trigger] c.sels(k, n), text_of(state.buffers, n)) by { assert(c.has(k, n)); }
            assert forall|n: Seq<char>| #[trigger] vset(c.view).contains(n) implies state.buffers.m().contains_key(n) && list_in(c.sels(k, n), text_of(state.buffers, n)) by { assert(c.has(k, n)); }
        }
    }
//@ fn Core::open_scratch
    requires
        forall|n: Seq<char>| #[trigger] old(self).state.buffers.m().contains_key(n) ==> old(self).state.buffers.m()[n].content.wf(),
    ensures
        exists|b: Buffer| scratched(old(self).state, final(self).state, name@, b),
//@ if texts
        text_of(final(self).state.buffers, name@) == from_text(content@), final(self).state.buffers.m()[name@].source is Scratch,
        final(self).state.cwd == old(self).state.cwd,
//@ end
//@ if notified
        final(self).notifier == old(self).notifier,
//@ end
//@ exit
    proof { assert(scratched(old(self).state, self.state, name@, self.state.buffers.m()[name@])); }
//@ fn Core::append_to
    requires old(self).state.ok()
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
        final(self).state.ok(), final(self).state.same_but(old(self).state, buffer@),
        final(self).state.buffers.m().contains_key(buffer@),
//@ if texts
        final(self).state.cwd == old(self).state.cwd,
        put(old(self).state, final(self).state, buffer@, text@), but(old(self).state, final(self).state, buffer@), grew(old(self).state, final(self).state, buffer@),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ exit
    proof {
        assert forall|id: usize| #[trigger] self.state.clients.ids().contains_key(id) implies
            self.current(id) || told_same(old(self).notifier, self.notifier, id) && pic_kept(old(self).state, self.state, id) && old(self).state.clients.ids()[id].view.wf() by {
            if !self.current(id) {
                lemma_pic(old(self).state, self.state, id, set![buffer@]);
            }
        }
        lemma_keeps(*old(self), *self);
    }
//@ end
//@ after self . open_scratch (buffer , text) ;
    proof {
        let b = choose|b: Buffer| scratched(old(self).state, self.state, buffer@, b);
        lemma_scratched(old(self).state, self.state, buffer@, b, none(), none(), none());
        assert(none().remove(buffer@) =~= none());
    }
//@ after buf . append (text) ;
    proof { lemma_grown(old(self).state, self.state, buffer@); }
//@ if pics
    assert(self.notifier == old(self).notifier);
//@ end
//@ verus
/// something has been appended to buffer n
proof fn lemma_grown(o: CoreState, c: CoreState, n: Seq<char>)
    requires
        o.ok(), o.buffers.m().contains_key(n), c.views == o.views, c.clients == o.clients,
        c.buffers.m() == o.buffers.m().insert(n, c.buffers.m()[n]), c.buffers.m()[n].content.wf(),
        text_of(c.buffers, n).len() >= text_of(o.buffers, n).len(),
    ensures c.ok()
{
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies c.clients.ids()[id].lists_ok(c.buffers, none()) by {
        let x = o.clients.ids()[id];
        assert forall|k: Seq<char>, m: Seq<char>| #[trigger] x.has(k, m) implies c.buffers.m().contains_key(m) && list_in(x.sels(k, m), text_of(c.buffers, m)) by { }
    }
}
//@ fn Core::debug
//@ rewrite log :: debug ! ($$x) ; =>
    requires old(self).state.ok()
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
        final(self).state.ok(), final(self).state.same_but(old(self).state, BUFFER_DEBUG@),
//@ if texts
        final(self).state.cwd == old(self).state.cwd,
        but(old(self).state, final(self).state, BUFFER_DEBUG@), grew(old(self).state, final(self).state, BUFFER_DEBUG@),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ end
//@ if texts
//@ exit
    proof { lemma_longer_self(old(self).state.buffers.m()[BUFFER_DEBUG@]); }
//@ end
//@ fn Core::message
//@ rewrite message < C > => message
//@ rewrite client : C => client : Option < usize >
//@ rewrite where C : Into < Option < usize >> , =>
//@ rewrite client . into () => client
    requires old(self).state.ok()
    ensures
//@ if tell
        put(old(self).state, final(self).state, "*messages*"@, noted(client, content@)),
        final(self).notifier.said() == old(self).notifier.said().push(Said::Message(client, content@)),
//@ end
        final(self).state.ok(), final(self).state.same_but(old(self).state, "*messages*"@),
//@ if texts
        final(self).state.cwd == old(self).state.cwd,
        but(old(self).state, final(self).state, "*messages*"@), grew(old(self).state, final(self).state, "*messages*"@),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ end
//@ if tell
//@ entry
    proof { broadcast use {lemma_sum, lemma_sum_none}; lemma_literals(); }
//@ end
//@ fn Core::error
//@ rewrite error < C > => error
//@ rewrite client : C => client : Option < usize >
//@ rewrite where C : Into < Option < usize >> , =>
//@ rewrite client . into () => client
//@ rewrite log :: error ! ($$x) ; =>
    requires old(self).state.ok()
    ensures
//@ if tell
        put(old(self).state, final(self).state, "*errors*"@, noted(client, tagged(tag@, content@))),
        final(self).notifier.said() == old(self).notifier.said().push(Said::Error(client, on_one_line(tagged(tag@, content@)))),
//@ end
        final(self).state.ok(), final(self).state.same_but(old(self).state, "*errors*"@),
//@ if texts
        final(self).state.cwd == old(self).state.cwd,
        but(old(self).state, final(self).state, "*errors*"@), grew(old(self).state, final(self).state, "*errors*"@),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ end
//@ if tell
//@ entry
    proof { broadcast use {lemma_sum, lemma_sum_none}; lemma_literals(); }
//@ end
//@ fn Core::remove_client
    requires old(self).state.ok()
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(), final(self).state.views == old(self).state.views,
        final(self).state.clients.ids().dom() == old(self).state.clients.ids().dom().remove(id),
//@ if sels
        sels_stay(old(self).state, final(self).state),
//@ end
//@ if looks
        final(self).state.clients.seats() == forgotten(old(self).state.clients.seats(), id),
        forall|x: usize| #[trigger] final(self).state.clients.ids().contains_key(x) ==> eye(final(self).state, x) == eye(old(self).state, x),
//@ end
//@ if texts
        but(old(self).state, final(self).state, BUFFER_DEBUG@), grew(old(self).state, final(self).state, BUFFER_DEBUG@),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ end
//@ fn Core::open_file
    requires old(self).state.ok(), !old(self).state.buffers.m().contains_key(buffer_name@)
    ensures
        final(self).state.ok(),
        result is Err ==> final(self).state == old(self).state,
        result is Ok ==> final(self).state.views == old(self).state.views && final(self).state.clients == old(self).state.clients
            && final(self).state.buffers.m() == old(self).state.buffers.m().insert(buffer_name@, final(self).state.buffers.m()[buffer_name@]),
//@ if texts
        final(self).state.cwd == old(self).state.cwd,
        result is Ok ==> opened(final(self).state.buffers.m()[buffer_name@], *filename),
//@ end
//@ if notified
        final(self).notifier == old(self).notifier,
//@ end
//@ verus
/// the selections a client starts with
spec fn fresh_list(l: Sels) -> bool { l.len() == 1 && l[0] == (Selection { anchor: 0, cursor: 0, target_col: 1 }) }
spec fn fresh_map(m: HashMap<String, Vec<Selection>>, names: Set<Seq<char>>) -> bool {
    m.m().dom() == names && forall|n: Seq<char>| #[trigger] names.contains(n) ==> fresh_list(m.m()[n]@)
}
proof fn lemma_fresh_client(s: CoreState, c: ClientContext)
    requires
        s.ok(), exists|k: Seq<char>| #[trigger] s.views.m().contains_key(k) && c.view == s.views.m()[k],
        c.keys() == s.views.m().dom(),
        forall|k: Seq<char>| #[trigger] c.keys().contains(k) ==> fresh_map(c.selections.m()[k], vset(s.views.m()[k])),
    ensures c.view_ok(s.views, none()), c.names_ok(s.views, none()), c.lists_ok(s.buffers, none())
{
    assert forall|k: Seq<char>, n: Seq<char>| #[trigger] c.has(k, n) implies s.buffers.m().contains_key(n) && list_in(c.sels(k, n), text_of(s.buffers, n)) by {
        assert(c.keys().contains(k));
        assert(vset(s.views.m()[k]).contains(n));
    }
}
//@ fn Core::add_client
    requires old(self).state.ok(), old(self).state.has_view()
    ensures
//@ if tell
        final(self).notifier.said() == old(self).notifier.said().push(Said::Info(id, *info)),
//@ end
       
        final(self).state.ok(), final(self).state.views == old(self).state.views,
        final(self).state.clients.ids().dom() == old(self).state.clients.ids().dom().insert(id),
//@ if sels
        forall|x: usize, k: Seq<char>, n: Seq<char>| x != id && final(self).state.clients.ids().contains_key(x) && #[trigger] final(self).state.clients.ids()[x].has(k, n)
            ==> got(old(self).state.clients.ids()[x], final(self).state.clients.ids()[x], k, n, Some(k)),
        sels_taken(old(self).state, final(self).state.clients.ids()[id]),
//@ end
//@ if looks
        final(self).state.clients.seats() == used(old(self).state.clients.seats(), id),
        forall|x: usize| x != id && #[trigger] final(self).state.clients.ids().contains_key(x) ==> eye(final(self).state, x) == eye(old(self).state, x),
        eye(final(self).state, id) == (if old(self).state.clients.seats().len() > 0 { eye(old(self).state, old(self).state.clients.seats()[0]) } else { old(self).state.views.order()[0] }),
//@ end
//@ if texts
        but(old(self).state, final(self).state, BUFFER_DEBUG@), grew(old(self).state, final(self).state, BUFFER_DEBUG@),
//@ end
//@ if pics
        forall|x: usize| x != id && #[trigger] final(self).state.clients.ids().contains_key(x) && old(self).current(x) ==> final(self).current(x),
        final(self).current(id),
//@ end
//@ collect 1 HashMap<String, Vec<Selection>>
//@ entry
    let ghost s0 = self.state;
    proof { broadcast use StackMap::axiom_order; }
//@ loop 0 before
    let ghost all = vx_it0@;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        s0.ok(), state.views == s0.views,
        forall|i: int| 0 <= i < all.len() ==> valued(s0.views.m(), *#[trigger] all[i]),
        forall|k: Seq<char>| #[trigger] s0.views.m().contains_key(k) ==> exists|i: int| 0 <= i < all.len() && *#[trigger] all[i] == s0.views.m()[k],
        forall|k: Seq<char>| #[trigger] selections.m().contains_key(k) ==> s0.views.m().contains_key(k) && fresh_map(selections.m()[k], vset(s0.views.m()[k])),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> selections.m().contains_key(vkey(*#[trigger] all[i])),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost n0 = all.len() - vx_it0@.len();
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[n0 as int]); } }
//@ loop 0 after
    proof {
        assert(selections.m().dom() =~= s0.views.m().dom()) by {
            assert forall|k: Seq<char>| #[trigger] s0.views.m().contains_key(k) implies selections.m().contains_key(k) by {
                let i = choose|i: int| 0 <= i < all.len() && *#[trigger] all[i] == s0.views.m()[k];
                assert(vkey(*all[i]) == k);
            }
        }
    }
//@ loop 1 before
    let ghost src = vx_it1@;
//@ loop 1
    invariant
        vx_it1@.len() <= src.len(), vx_it1@ == src.skip(src.len() - vx_it1@.len()),
        forall|n: Seq<char>| #[trigger] vx_acc1.m().contains_key(n) ==> exists|i: int| 0 <= i < src.len() && (#[trigger] src[i])@ == n,
        forall|n: Seq<char>| #[trigger] vx_acc1.m().contains_key(n) ==> fresh_list(vx_acc1.m()[n]@),
        forall|i: int| 0 <= i < src.len() - vx_it1@.len() ==> vx_acc1.m().contains_key((#[trigger] src[i])@),
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ loop 1 entry
    let ghost n1 = src.len() - vx_it1@.len();
    proof { if vx_it1@.len() > 0 { assert(vx_it1@[0] == src[n1 as int]); } }
//@ loop 1 after
    proof {
        broadcast use BTreeMap::axiom_keys;
        assert forall|i: int| 0 <= i < src.len() implies (#[trigger] src[i])@ == view.0.bkeys()[i] by { assert(*src[i] == vx_src1@[i]); }
        assert forall|n: Seq<char>| vx_acc1.m().contains_key(n) <==> #[trigger] vset(*view).contains(n) by {
            if vset(*view).contains(n) {
                assert(view.0.bkeys().contains(n));
                let i = view.0.bkeys().index_of(n);
                assert(src[i]@ == n);
            }
        }
        assert(vx_acc1.m().dom() =~= vset(*view));
    }
//@ if pics
//@ before self . debug
    let ghost s1 = *self;
    proof {
        assert(self.notifier == old(self).notifier);
        assert forall|x: usize| x != id && #[trigger] self.state.clients.ids().contains_key(x) && old(self).current(x) implies self.current(x) by {
            lemma_pic(s0, self.state, x, none());
            lemma_frame(*old(self), *self, x);
        }
    }
//@ before self . notifier . info_update
    let ghost s2 = *self;
//@ exit
    proof {
        assert(seq![id].contains(id)) by { assert(seq![id][0] == id); }
        assert forall|x: usize| x != id && #[trigger] self.state.clients.ids().contains_key(x) && old(self).current(x) implies self.current(x) by {
            assert(s1.state.clients.ids().contains_key(x) && s1.current(x));
            assert(s2.state.clients.ids().contains_key(x) && s2.current(x));
            assert(!seq![id].contains(x));
            assert(told_same(s2.notifier, self.notifier, x));
        }
    }
//@ end
//@ before state . clients . insert
    proof {
        assert(context.view_ok(s0.views, none()) && context.names_ok(s0.views, none()) && context.lists_ok(s0.buffers, none())) by {
            if s0.clients.ids() == Map::<usize, ClientContext>::empty() { lemma_fresh_client(s0, context); }
        }
    }
//@ if looks
//@ before self . debug
    proof {
        if s0.clients.seats().len() == 0 { assert(s0.views.m().contains_key(s0.views.order()[0])); }
        assert(eye(self.state, id) == (if s0.clients.seats().len() > 0 { eye(s0, s0.clients.seats()[0]) } else { s0.views.order()[0] }));
    }
//@ exit
    assert(self.state.clients.ids().contains_key(id));
//@ end
//@ if sels
//@ before self . debug
    let ghost sd = self.state;
    proof {
        assert forall|k: Seq<char>, n: Seq<char>| #[trigger] sd.clients.ids()[id].has(k, n) implies if s0.clients.seats().len() > 0 {
            s0.clients.ids()[s0.clients.seats()[0]].has(k, n) && sd.clients.ids()[id].sels(k, n) == s0.clients.ids()[s0.clients.seats()[0]].sels(k, n)
        } else { fresh_list(sd.clients.ids()[id].sels(k, n)) } by { }
        assert(sels_taken(s0, sd.clients.ids()[id]));
    }
//@ exit
    proof {
        assert(self.state.clients.ids().contains_key(id));
        assert forall|k: Seq<char>, n: Seq<char>| #[trigger] self.state.clients.ids()[id].has(k, n) implies sd.clients.ids()[id].has(k, n)
            && self.state.clients.ids()[id].sels(k, n) == sd.clients.ids()[id].sels(k, n) by { lemma_same_has(sd, self.state, id, k, n); }
    }
//@ end
//@ verus
/// view v has been added, and each client has got the selections for it that were missing
spec fn view_added(o: CoreState, c: CoreState, v: View) -> bool {
    &&& c.buffers == o.buffers
//@ if looks
    &&& c.clients.seats() == o.clients.seats() && c.views.order() == used(o.views.order(), vkey(v))
//@ end
    &&& c.views.m() == o.views.m().insert(vkey(v), v) && c.views.order().len() > 0 && c.views.order()[0] == vkey(v)
    &&& c.clients.ids().dom() == o.clients.ids().dom()
    &&& forall|id: usize| #[trigger] o.clients.ids().contains_key(id) ==> ctx_added(o.clients.ids()[id], c.clients.ids()[id], v)
}
spec fn ctx_added(o: ClientContext, c: ClientContext, v: View) -> bool {
    let k = vkey(v);
    &&& c.view == o.view
    &&& c.keys() == o.keys().insert(k)
    &&& forall|x: Seq<char>| x != k && #[trigger] o.keys().contains(x) ==> c.selections.m()[x] == o.selections.m()[x]
    &&& filled(if o.keys().contains(k) { o.selections.m()[k].m() } else { Map::empty() }, c.selections.m()[k].m(), vset(v))
}
spec fn filled(o: Map<Seq<char>, Vec<Selection>>, c: Map<Seq<char>, Vec<Selection>>, names: Set<Seq<char>>) -> bool {
    &&& c.dom() == o.dom().union(names)
    &&& forall|n: Seq<char>| #[trigger] c.contains_key(n) ==> if o.contains_key(n) { c[n] == o[n] } else { fresh_list(c[n]@) }
}
proof fn lemma_same_key(v: View, w: View)
    requires v.wf(), w.wf(), vkey(v) == vkey(w)
    ensures vset(v) == vset(w)
{ lemma_views_with_same_key(&v, &w); }
proof fn lemma_added(o: CoreState, c: CoreState, v: View, xs: Set<Seq<char>>, bad: Set<Seq<char>>, ys: Set<Seq<char>>)
    requires
        o.parts(xs, bad, ys), view_added(o, c, v), v.wf(), whole(v),
        forall|n: Seq<char>| #[trigger] vset(v).contains(n) ==> o.buffers.m().contains_key(n),
        xs.contains(vkey(v)) ==> forall|id: usize, n: Seq<char>| #[trigger] o.clients.ids().contains_key(id) && #[trigger] o.clients.ids()[id].has(vkey(v), n) ==> vset(v).contains(n),
    ensures c.parts(xs.remove(vkey(v)), bad, ys), c.has_view()
{
    let k0 = vkey(v);
    assert forall|k: Seq<char>| #[trigger] c.views.m().contains_key(k) implies {
        &&& c.views.m()[k].wf() && whole(c.views.m()[k]) && vkey(c.views.m()[k]) == k
        &&& forall|n: Seq<char>| #[trigger] vset(c.views.m()[k]).contains(n) ==> c.buffers.m().contains_key(n)
    } by { if k != k0 { assert(o.views.m().contains_key(k)); } }
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies {
        let q = c.clients.ids()[id];
        q.view_ok(c.views, ys) && q.names_ok(c.views, xs.remove(k0)) && q.lists_ok(c.buffers, bad)
    } by {
        assert(o.clients.ids().contains_key(id));
        let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
        if vkey(q.view) == k0 { lemma_same_key(q.view, v); }
        if o.views.m().contains_key(k0) { lemma_same_key(o.views.m()[k0], v); }
        assert(forall|n: Seq<char>| p.keys().contains(k0) && #[trigger] p.names(k0).contains(n) ==> vset(v).contains(n)) by {
            assert forall|n: Seq<char>| p.keys().contains(k0) && #[trigger] p.names(k0).contains(n) implies vset(v).contains(n) by {
                assert(p.has(k0, n));
                if !xs.contains(k0) { assert(p.keys().contains(k0) <==> o.views.m().contains_key(k0)); }
            }
        }
        assert(ctx_added(p, q, v));
        let m0 = if p.keys().contains(k0) { p.selections.m()[k0].m() } else { Map::<Seq<char>, Vec<Selection>>::empty() };
        assert forall|n: Seq<char>| m0.dom().contains(n) implies vset(v).contains(n) by { assert(p.names(k0).contains(n)); }
        assert(m0.dom().union(vset(v)) =~= vset(v));
        assert(q.names(k0) =~= vset(v));
        assert forall|k: Seq<char>| !xs.remove(k0).contains(k) implies (#[trigger] q.keys().contains(k) <==> c.views.m().contains_key(k))
            && (c.views.m().contains_key(k) ==> q.names(k) == vset(c.views.m()[k])) by {
            if k != k0 { assert(p.keys().contains(k) <==> o.views.m().contains_key(k)); }
        }
        assert forall|k: Seq<char>, n: Seq<char>| #[trigger] q.has(k, n) implies c.buffers.m().contains_key(n)
            && (if bad.contains(n) { loose(q.sels(k, n)) } else { list_in(q.sels(k, n), text_of(c.buffers, n)) }) by {
            if k != k0 { assert(p.has(k, n)); }
            else if p.keys().contains(k0) && p.names(k0).contains(n) { assert(p.has(k, n)); }
            else { assert(vset(v).contains(n)); assert(fresh_list(q.sels(k, n))); }
        }
    }
}
//@ if pics
//@ verus
/// adding a view changes nothing that anyone sees
proof fn lemma_view_added(o: Core, c: Core, v: View)
    requires
        o.state.ok(), view_added(o.state, c.state, v), c.notifier == o.notifier,
    ensures keeps(o, c)
{
    assert forall|x: usize| #[trigger] c.state.clients.ids().contains_key(x) && o.current(x) implies c.current(x) by {
        let (p, q) = (o.state.clients.ids()[x], c.state.clients.ids()[x]);
        assert(ctx_added(p, q, v));
        let k = vkey(p.view);
        assert(p.view_ok(o.state.views, none()) && p.names_ok(o.state.views, none()));
        assert(p.keys().contains(k) <==> o.state.views.m().contains_key(k));
        assert forall|n: Seq<char>| #[trigger] vset(p.view).contains(n) implies {
            p.has(k, n) ==> q.has(k, n) && q.sels(k, n) == p.sels(k, n)
        } by {
            if k == vkey(v) && p.has(k, n) { assert(q.selections.m()[k].m().contains_key(n)); }
        }
        lemma_pic_of(o.state, c.state, x, none(), none(), none());
        lemma_frame(o, c, x);
    }
}
//@ end
//@ fn Core::add_view
//@ rewrite view . clone () => vx_copy (& view)
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        view_added(old(self).state, final(self).state, view),
//@ if notified
        final(self).notifier == old(self).notifier,
//@ end
//@ entry
    let ghost s0 = self.state;
//@ loop 0 before
    let ghost all = vx_it0@;
    let ghost ids0 = self.state.clients.ids();
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        all.no_duplicates(), forall|k: usize| ids0.contains_key(k) <==> #[trigger] all.contains(k),
        ids0 == s0.clients.ids(), self.state.buffers == s0.buffers,
//@ if notified
        self.notifier == old(self).notifier,
//@ end
        self.state.views.m() == s0.views.m().insert(vkey(view), view), self.state.views.order().len() > 0, self.state.views.order()[0] == vkey(view),
//@ if looks
        self.state.clients.seats() == s0.clients.seats(), self.state.views.order() == used(s0.views.order(), vkey(view)),
//@ end
        self.state.clients.ids().dom() == ids0.dom(),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> ctx_added(ids0[#[trigger] all[i]], self.state.clients.ids()[all[i]], view),
        forall|i: int| all.len() - vx_it0@.len() <= i < all.len() ==> ids0[#[trigger] all[i]] == self.state.clients.ids()[all[i]],
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost n0 = all.len() - vx_it0@.len();
    let ghost cl0 = self.state.clients.ids();
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[n0 as int]); assert(all.contains(all[n0 as int])); } }
//@ loop 0 end
    proof {
        assert(self.state.clients.ids().dom() =~= ids0.dom());
        assert forall|i: int| 0 <= i < all.len() && i != n0 implies self.state.clients.ids()[#[trigger] all[i]] == cl0[all[i]] by { }
    }
//@ loop 0 after
    proof {
        assert forall|id: usize| #[trigger] ids0.contains_key(id) implies ctx_added(ids0[id], self.state.clients.ids()[id], view) by {
            assert(all.contains(id));
        }
    }
//@ loop 1 before
    let ghost src = vx_it1@;
    let ghost m0 = sels_by_view.m();
    proof {
        broadcast use BTreeMap::axiom_keys;
        assert forall|n: Seq<char>| #[trigger] vset(view).contains(n) implies exists|i: int| 0 <= i < src.len() && (#[trigger] src[i])@ == n by {
            let i = view.0.bkeys().index_of(n);
            assert(src[i]@ == n);
        }
    }
//@ loop 1
    invariant
        vx_it1@.len() <= src.len(), vx_it1@ == src.skip(src.len() - vx_it1@.len()),
        forall|i: int| 0 <= i < src.len() ==> vset(view).contains((#[trigger] src[i])@),
        forall|n: Seq<char>| #[trigger] m0.contains_key(n) ==> sels_by_view.m().contains_key(n),
        forall|n: Seq<char>| #[trigger] sels_by_view.m().contains_key(n) ==> if m0.contains_key(n) { sels_by_view.m()[n] == m0[n] } else { vset(view).contains(n) && fresh_list(sels_by_view.m()[n]@) },
        forall|i: int| 0 <= i < src.len() - vx_it1@.len() ==> sels_by_view.m().contains_key((#[trigger] src[i])@),
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ loop 1 entry
    let ghost n1 = src.len() - vx_it1@.len();
    proof { if vx_it1@.len() > 0 { assert(vx_it1@[0] == src[n1 as int]); } }
//@ loop 1 after
    proof { assert(sels_by_view.m().dom() =~= m0.dom().union(vset(view))); }
//@ verus
/// a view other than `except` shows buffer n
spec fn in_view(vs: StackMap<String, View>, except: Option<Seq<char>>, n: Seq<char>) -> bool {
    exists|k: Seq<char>| #[trigger] vs.m().contains_key(k) && Some(k) != except && vset(vs.m()[k]).contains(n)
}
proof fn lemma_drop_buffer(o: CoreState, c: CoreState, n: Seq<char>, ys: Set<Seq<char>>)
    requires
        o.parts(none(), none(), ys), !in_view(o.views, None, n),
        c.views == o.views, c.clients == o.clients, c.buffers.m() == o.buffers.m().remove(n),
    ensures c.parts(none(), none(), ys)
{
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies c.clients.ids()[id].lists_ok(c.buffers, none()) by {
        let p = o.clients.ids()[id];
        assert(o.clients.ids().contains_key(id));
        assert forall|k: Seq<char>, m: Seq<char>| #[trigger] p.has(k, m) implies c.buffers.m().contains_key(m) && list_in(p.sels(k, m), text_of(c.buffers, m)) by {
            assert(p.keys().contains(k) <==> o.views.m().contains_key(k));
            assert(vset(o.views.m()[k]).contains(m));
        }
    }
}
/// what becomes of the views and buffers when view k is deleted
spec fn view_deleted(o: CoreState, c: CoreState, k: Seq<char>) -> bool {
    let debug = BUFFER_DEBUG@;
    let scratch = BUFFER_SCRATCH@;
    &&& c.clients.ids().dom() == o.clients.ids().dom()
    // the other views stay; if there are none, the scratch buffer is shown
    &&& forall|x: Seq<char>| x != k && #[trigger] o.views.m().contains_key(x) ==> c.views.m().contains_key(x) && c.views.m()[x] == o.views.m()[x]
    &&& forall|x: Seq<char>| #[trigger] c.views.m().contains_key(x) ==> x != k && o.views.m().contains_key(x) || vset(c.views.m()[x]) == set![scratch] && c.views.m().dom() == set![x]
    // buffers are gone exactly when the last view that shows them is; logs and the scratch buffer come back
    &&& forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && !c.buffers.m().contains_key(n) ==> vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n)
    &&& forall|n: Seq<char>| #[trigger] vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n) && n != debug && n != scratch ==> !c.buffers.m().contains_key(n)
    &&& forall|n: Seq<char>| #[trigger] c.buffers.m().contains_key(n) && n != debug && n != scratch ==> o.buffers.m().contains_key(n) && c.buffers.m()[n] == o.buffers.m()[n]
}
/// the selections for view k are gone
spec fn forgot(o: ClientContext, c: ClientContext, k: Seq<char>) -> bool {
    c.view == o.view && c.selections.m() == o.selections.m().remove(k)
}
proof fn lemma_forgotten(o: CoreState, c: CoreState, k: Seq<char>)
    requires
        o.parts(none().insert(k), none(), none()), o.views.m().contains_key(k),
        c.buffers == o.buffers, c.views.m() == o.views.m().remove(k), c.clients.ids().dom() == o.clients.ids().dom(),
        forall|id: usize| #[trigger] o.clients.ids().contains_key(id) ==> forgot(o.clients.ids()[id], c.clients.ids()[id], k),
    ensures c.parts(none(), none(), none().insert(k))
{
    assert forall|x: Seq<char>| #[trigger] c.views.m().contains_key(x) implies {
        &&& c.views.m()[x].wf() && whole(c.views.m()[x]) && vkey(c.views.m()[x]) == x
        &&& forall|n: Seq<char>| #[trigger] vset(c.views.m()[x]).contains(n) ==> c.buffers.m().contains_key(n)
    } by { assert(o.views.m().contains_key(x)); }
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies {
        let q = c.clients.ids()[id];
        q.view_ok(c.views, none().insert(k)) && q.names_ok(c.views, none()) && q.lists_ok(c.buffers, none())
    } by {
        assert(o.clients.ids().contains_key(id));
        let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
        assert(forgot(p, q, k));
        assert(q.view_ok(c.views, none().insert(k))) by { assert(p.view_ok(o.views, none())); }
        assert(q.names_ok(c.views, none())) by {
            assert forall|x: Seq<char>| (#[trigger] q.keys().contains(x) <==> c.views.m().contains_key(x))
                && (c.views.m().contains_key(x) ==> q.names(x) == vset(c.views.m()[x])) by {
                assert(q.keys() =~= p.keys().remove(k));
                if x != k { assert(p.keys().contains(x) <==> o.views.m().contains_key(x)); }
            }
        }
        assert(q.lists_ok(c.buffers, none())) by {
            assert forall|x: Seq<char>, m: Seq<char>| #[trigger] q.has(x, m) implies c.buffers.m().contains_key(m) && list_in(q.sels(x, m), text_of(c.buffers, m)) by {
                assert(p.has(x, m));
            }
        }
    }
}
//@ if texts
//@ verus
/// buffer n is not gone with view k: another view shows it, or k does not, or it is one of `more`
spec fn left(o: CoreState, k: Seq<char>, more: Set<Seq<char>>, n: Seq<char>) -> bool {
    in_view(o.views, Some(k), n) || !vset(o.views.m()[k]).contains(n) || more.contains(n)
}
/// the buffers left hold what they held (something may have been added to the log), and a scratch buffer
/// that has come back is new
spec fn buffers_left(o: CoreState, c: CoreState, k: Seq<char>, more: Set<Seq<char>>) -> bool {
    let d = BUFFER_DEBUG@;
    let n = BUFFER_SCRATCH@;
    &&& forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && left(o, k, more, n) ==> c.buffers.m().contains_key(n)
        && (if n == d { longer(o.buffers.m()[n], c.buffers.m()[n]) } else { c.buffers.m()[n] == o.buffers.m()[n] })
    &&& c.buffers.m().contains_key(n) && !(o.buffers.m().contains_key(n) && left(o, k, more, n)) ==> text_of(c.buffers, n) == seq![10u8] && c.buffers.m()[n].source is Scratch
}
//@ end
//@ verus
proof fn lemma_same_sels(p: ClientContext, q: ClientContext, vs: StackMap<String, View>, bs: HashMap<String, Buffer>, xs: Set<Seq<char>>, bad: Set<Seq<char>>)
    requires p.names_ok(vs, xs), p.lists_ok(bs, bad), q.selections == p.selections
    ensures q.names_ok(vs, xs), q.lists_ok(bs, bad)
{
    assert forall|k: Seq<char>| !xs.contains(k) implies (#[trigger] q.keys().contains(k) <==> vs.m().contains_key(k))
        && (vs.m().contains_key(k) ==> q.names(k) == vset(vs.m()[k])) by { assert(p.keys().contains(k) <==> vs.m().contains_key(k)); }
    assert forall|k: Seq<char>, n: Seq<char>| #[trigger] q.has(k, n) implies bs.m().contains_key(n)
        && (if bad.contains(n) { loose(q.sels(k, n)) } else { list_in(q.sels(k, n), text_of(bs, n)) }) by { assert(p.has(k, n)); }
}
//@ fn Core::delete_view #[verifier::rlimit(30)] #[verifier::spinoff_prover]
//@ rewrite b == buffer => vx_same (b , buffer)
//@ rewrite context . view . borrow () . key () == * view_id => vx_same (& context . view . key () , view_id)
    requires old(self).state.parts(none().insert(view_id@), none(), none())
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        result is Err <==> !old(self).state.views.m().contains_key(view_id@),
        result is Err ==> final(self).state == old(self).state,
        result is Ok ==> final(self).state.ok() && final(self).state.has_view() && view_deleted(old(self).state, final(self).state, view_id@),
//@ if sels
        result is Ok ==> sels_without(old(self).state, final(self).state, view_id@),
//@ end
//@ if looks
        result is Ok ==> left_for(old(self).state, final(self).state, old(self).state.views.order(), view_id@),
//@ end
//@ if texts
        result is Ok ==> buffers_left(old(self).state, final(self).state, view_id@, none()),
//@ end
//@ if pics
        result is Err ==> final(self).notifier == old(self).notifier,
        result is Ok ==> redirected(*old(self), *final(self), view_id@),
//@ exit
    proof {
        if s0.views.m().contains_key(vid) {
            assert forall|id: usize| #[trigger] self.state.clients.ids().contains_key(id) && (vkey(s0.clients.ids()[id].view) == vid || old(self).current(id)) implies self.current(id) by {
                assert(c5.state.clients.ids().contains_key(id));
                if vkey(s0.clients.ids()[id].view) == vid { assert(who.contains(id)); assert(self.current(id)); }
                else {
                    assert(c5.current(id));
                    assert(c6.state.clients.ids().contains_key(id) && c6.current(id));
                    if !who.contains(id) { assert(told_same(c6.notifier, self.notifier, id)); }
                }
            }
        }
    }
//@ before self . notify_view_update
    let ghost c6 = *self;
    let ghost who = to_notify@;
//@ before self . debug
    let ghost c5 = *self;
//@ end
//@ entry
    let ghost s0 = self.state;
    let ghost vid = view_id@;
    let ghost mut sg = self.state;
//@ loop 0 before
    let ghost all = vx_it0@;
    let ghost ids0 = self.state.clients.ids();
    let ghost s1 = self.state;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        all.no_duplicates(), forall|k: usize| ids0.contains_key(k) <==> #[trigger] all.contains(k),
//@ if notified
        self.notifier == old(self).notifier,
//@ end
        self.state.buffers == s1.buffers, self.state.views == s1.views,
//@ if looks
        self.state.clients.seats() == s0.clients.seats(),
//@ end
        self.state.clients.ids().dom() == ids0.dom(),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> forgot(ids0[#[trigger] all[i]], self.state.clients.ids()[all[i]], view_id@),
        forall|i: int| all.len() - vx_it0@.len() <= i < all.len() ==> ids0[#[trigger] all[i]] == self.state.clients.ids()[all[i]],
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost n0 = all.len() - vx_it0@.len();
    let ghost cl0 = self.state.clients.ids();
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[n0 as int]); assert(all.contains(all[n0 as int])); } }
//@ loop 0 end
    proof {
        assert(self.state.clients.ids().dom() =~= ids0.dom());
        assert forall|i: int| 0 <= i < all.len() && i != n0 implies self.state.clients.ids()[#[trigger] all[i]] == cl0[all[i]] by { }
    }
//@ loop 0 after
    proof {
        assert forall|id: usize| #[trigger] ids0.contains_key(id) implies forgot(ids0[id], self.state.clients.ids()[id], view_id@) by { assert(all.contains(id)); }
        lemma_forgotten(s0, self.state, vid);
    }
//@ loop 1 before
    let ghost src1 = vx_it1@;
    let ghost s2 = self.state;
    proof { sg = self.state; }
    proof {
        broadcast use BTreeMap::axiom_keys;
        assert forall|i: int| 0 <= i < src1.len() implies (#[trigger] src1[i])@ == view.0.bkeys()[i] && vset(view).contains(src1[i]@) by { }
        assert forall|n: Seq<char>| #[trigger] vset(view).contains(n) implies exists|i: int| 0 <= i < src1.len() && (#[trigger] src1[i])@ == n by {
            let i = view.0.bkeys().index_of(n);
            assert(src1[i]@ == n);
        }
    }
//@ loop 1 after
    proof {
        assert forall|n: Seq<char>| #[trigger] vset(view).contains(n) && !in_view(s2.views, None, n) implies !self.state.buffers.m().contains_key(n) by {
            let i = choose|i: int| 0 <= i < src1.len() && (#[trigger] src1[i])@ == n;
            assert(!in_view(s2.views, None, src1[i]@));
        }
        assert forall|n: Seq<char>| in_view(s0.views, Some(vid), n) <==> #[trigger] in_view(s2.views, None, n) by {
            if in_view(s0.views, Some(vid), n) {
                let k = choose|k: Seq<char>| #[trigger] s0.views.m().contains_key(k) && Some(k) != Some(vid) && vset(s0.views.m()[k]).contains(n);
                assert(s2.views.m().contains_key(k));
            }
            if in_view(s2.views, None, n) {
                let k = choose|k: Seq<char>| #[trigger] s2.views.m().contains_key(k) && Some(k) != None::<Seq<char>> && vset(s2.views.m()[k]).contains(n);
                assert(s0.views.m().contains_key(k));
            }
        }
        assert forall|n: Seq<char>| #[trigger] s0.buffers.m().contains_key(n) && !self.state.buffers.m().contains_key(n) implies vset(s0.views.m()[vid]).contains(n) && !in_view(s0.views, Some(vid), n) by {
            assert(!in_view(s2.views, None, n));
        }
    }
//@ loop 1
    invariant
        vx_it1@.len() <= src1.len(), vx_it1@ == src1.skip(src1.len() - vx_it1@.len()),
        self.state.parts(none(), none(), none().insert(view_id@)), self.state.views == s2.views, self.state.clients == s2.clients,
//@ if notified
        self.notifier == old(self).notifier,
//@ end
        forall|i: int| 0 <= i < src1.len() ==> vset(view).contains((#[trigger] src1[i])@),
        forall|n: Seq<char>| #[trigger] self.state.buffers.m().contains_key(n) ==> s2.buffers.m().contains_key(n) && self.state.buffers.m()[n] == s2.buffers.m()[n],
        forall|n: Seq<char>| #[trigger] s2.buffers.m().contains_key(n) && !self.state.buffers.m().contains_key(n) ==> vset(view).contains(n) && !in_view(s2.views, None, n),
        forall|i: int| 0 <= i < src1.len() - vx_it1@.len() && !in_view(s2.views, None, (#[trigger] src1[i])@) ==> !self.state.buffers.m().contains_key(src1[i]@),
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ loop 1 entry
    let ghost n1 = src1.len() - vx_it1@.len();
    let ghost s2b = self.state;
    proof { if vx_it1@.len() > 0 { assert(vx_it1@[0] == src1[n1 as int]); } }
//@ loop 2 before
    let ghost all2 = vx_it2@;
//@ loop 2
    invariant_except_break
        forall|i: int| 0 <= i < all2.len() - vx_it2@.len() ==> !vset(*#[trigger] all2[i]).contains(buffer@),
        !has_ref,
    invariant
        vx_it2@.len() <= all2.len(), vx_it2@ == all2.skip(all2.len() - vx_it2@.len()),
        forall|i: int| 0 <= i < all2.len() ==> valued(self.state.views.m(), *#[trigger] all2[i]),
    ensures
        has_ref ==> in_view(self.state.views, None, buffer@),
        !has_ref ==> forall|i: int| 0 <= i < all2.len() ==> !vset(*#[trigger] all2[i]).contains(buffer@),
    decreases vx_it2@.len()
//@ loop 2 entry
    let ghost n2 = all2.len() - vx_it2@.len();
    proof { if vx_it2@.len() > 0 { assert(vx_it2@[0] == all2[n2 as int]); } }
//@ loop 2 after
    proof {
        if !has_ref {
            assert forall|k: Seq<char>| #[trigger] self.state.views.m().contains_key(k) implies !vset(self.state.views.m()[k]).contains(buffer@) by {
                let i = choose|i: int| 0 <= i < all2.len() && *#[trigger] all2[i] == self.state.views.m()[k];
                assert(!vset(*all2[i]).contains(buffer@));
            }
            assert(!in_view(self.state.views, None, buffer@));
        }
    }
//@ loop 3 before
    let ghost src3 = vx_it3@;
    proof {
        broadcast use BTreeMap::axiom_keys;
        assert forall|i: int| 0 <= i < src3.len() implies (#[trigger] src3[i])@ == view.0.bkeys()[i] by { assert(*src3[i] == vx_src3@[i]); }
    }
//@ loop 3
    invariant_except_break
        forall|i: int| 0 <= i < src3.len() - vx_it3@.len() ==> (#[trigger] src3[i])@ != buffer@,
        !vx_acc3,
    invariant
        vx_it3@.len() <= src3.len(), vx_it3@ == src3.skip(src3.len() - vx_it3@.len()),
    ensures
        vx_acc3 ==> exists|i: int| 0 <= i < src3.len() && (#[trigger] src3[i])@ == buffer@,
        !vx_acc3 ==> forall|i: int| 0 <= i < src3.len() ==> (#[trigger] src3[i])@ != buffer@,
    decreases vx_it3@.len()
//@ loop 3 entry
    proof { if vx_it3@.len() > 0 { assert(vx_it3@[0] == src3[src3.len() - vx_it3@.len()]); } }
//@ loop 3 after
    proof {
        broadcast use BTreeMap::axiom_keys;
        if vx_acc3 {
            let i = choose|i: int| 0 <= i < src3.len() && (#[trigger] src3[i])@ == buffer@;
            assert(view.0.bkeys()[i] == buffer@);
            assert(vset(*view).contains(buffer@));
        } else if vset(*view).contains(buffer@) {
            let i = view.0.bkeys().index_of(buffer@);
            assert(src3[i]@ == buffer@);
        }
    }
//@ before if ! has_ref
    let ghost s2c = self.state;
//@ after if ! has_ref
    proof {
        if !has_ref { lemma_drop_buffer(s2c, self.state, buffer@, none().insert(view_id@)); }
        if has_ref { assert(in_view(s2.views, None, src1[n1 as int]@)); }
    }
//@ before if self . state . views . is_empty ()
    let ghost s3 = self.state;
    proof {
        broadcast use StackMap::axiom_order;
        broadcast use BTreeMap::axiom_keys;
    }
//@ after self . open_scratch (BUFFER_SCRATCH , String :: new ()) ;
    proof {
        let b = choose|b: Buffer| scratched(s3, self.state, BUFFER_SCRATCH@, b);
        lemma_scratched(s3, self.state, BUFFER_SCRATCH@, b, none(), none(), none().insert(vid));
        assert(none().remove(BUFFER_SCRATCH@) =~= none());
    }
//@ before self . add_view
    let ghost s3b = self.state;
//@ after self . add_view
    proof {
        let v = self.state.views.m()[self.state.views.order()[0]];
        lemma_added(s3b, self.state, v, none(), none(), none().insert(vid));
        assert(none().remove(vkey(v)) =~= none());
    }
//@ before let mut to_notify
    let ghost s4 = self.state;
    proof {
        broadcast use StackMap::axiom_order;
    }
//@ loop 4 before
    let ghost all4 = vx_it4@;
    let ghost ids4 = self.state.clients.ids();
//@ loop 4
    invariant
        vx_it4@.len() <= all4.len(), vx_it4@ == all4.skip(all4.len() - vx_it4@.len()),
        all4.no_duplicates(), forall|k: usize| ids4.contains_key(k) <==> #[trigger] all4.contains(k),
        self.state.buffers == s4.buffers, self.state.views == s4.views, s4.parts(none(), none(), none().insert(view_id@)), ids4 == s4.clients.ids(),
        valued(s4.views.m(), latest_view),
//@ if looks
        self.state.clients.seats() == s4.clients.seats(), latest_view == s4.views.m()[s4.views.order()[0]],
        forall|i: int| 0 <= i < all4.len() - vx_it4@.len() ==> vkey(self.state.clients.ids()[#[trigger] all4[i]].view) == (if vkey(ids4[all4[i]].view) == view_id@ { vkey(latest_view) } else { vkey(ids4[all4[i]].view) }),
//@ end
        self.state.clients.ids().dom() == ids4.dom(),
        forall|i: int| 0 <= i < all4.len() - vx_it4@.len() ==> self.state.clients.ids()[#[trigger] all4[i]].selections == ids4[all4[i]].selections
            && self.state.clients.ids()[all4[i]].view_ok(s4.views, none()),
        forall|i: int| all4.len() - vx_it4@.len() <= i < all4.len() ==> ids4[#[trigger] all4[i]] == self.state.clients.ids()[all4[i]],
        forall|i: int| 0 <= i < to_notify@.len() ==> ids4.contains_key(#[trigger] to_notify@[i]),
//@ if notified
        self.notifier == old(self).notifier,
//@ end
//@ if pics
        forall|i: int| 0 <= i < all4.len() - vx_it4@.len() ==> if vkey(ids4[#[trigger] all4[i]].view) == view_id@ { to_notify@.contains(all4[i]) } else { self.state.clients.ids()[all4[i]] == ids4[all4[i]] },
//@ end
    ensures vx_it4@.len() == 0
    decreases vx_it4@.len()
//@ loop 4 entry
    let ghost n4 = all4.len() - vx_it4@.len();
    let ghost cl4 = self.state.clients.ids();
    proof { if vx_it4@.len() > 0 { assert(vx_it4@[0] == all4[n4 as int]); assert(all4.contains(all4[n4 as int])); } }
//@ if pics
//@ loop 4 entry
    let ghost tn4 = to_notify@;
//@ loop 4 end
    proof {
        let id = all4[n4 as int];
        assert(to_notify@ == tn4 || to_notify@ == tn4.push(id));
        assert forall|x: usize| tn4.contains(x) implies to_notify@.contains(x) by { let i = tn4.index_of(x); assert(to_notify@[i] == x); }
        if vkey(ids4[id].view) == view_id@ { assert(to_notify@ == tn4.push(id)); assert(to_notify@[tn4.len() as int] == id); }
    }
//@ end
//@ loop 4 end
    proof {
        assert(self.state.clients.ids().dom() =~= ids4.dom());
        assert forall|i: int| 0 <= i < all4.len() && i != n4 implies self.state.clients.ids()[#[trigger] all4[i]] == cl4[all4[i]] by { }
    }
//@ before self . debug
    let ghost s5 = self.state;
//@ loop 4 after
    proof {
        assert forall|id: usize| #[trigger] self.state.clients.ids().contains_key(id) implies {
            let q = self.state.clients.ids()[id];
            q.view_ok(self.state.views, none()) && q.names_ok(self.state.views, none()) && q.lists_ok(self.state.buffers, none())
        } by {
            assert(ids4.contains_key(id));
            assert(all4.contains(id));
            let (p, q) = (ids4[id], self.state.clients.ids()[id]);
            let i = all4.index_of(id);
            assert(all4[i] == id && q.selections == p.selections && q.view_ok(s4.views, none()));
            assert(p.names_ok(s4.views, none()) && p.lists_ok(s4.buffers, none()));
            lemma_same_sels(p, q, s4.views, s4.buffers, none(), none());
        }
        assert(self.state.ok());
    }
//@ if pics
//@ loop 4 after
    proof {
        assert(self.notifier == old(self).notifier);
        assert forall|id: usize| #[trigger] ids4.contains_key(id) && vkey(s0.clients.ids()[id].view) != vid && old(self).current(id) implies self.current(id) by {
            assert(all4.contains(id));
            assert(forgot(s0.clients.ids()[id], sg.clients.ids()[id], vid));
            let k = vkey(s0.clients.ids()[id].view);
            assert(s0.clients.ids()[id].view_ok(s0.views, none()));
            assert(s0.views.m().contains_key(k) && sg.views.m().contains_key(k) && s3.views.m().contains_key(k));
            assert(s4 == s3);
            let i = all4.index_of(id);
            assert(all4[i] == id && self.state.clients.ids()[id] == ids4[id]);
            assert forall|n: Seq<char>| #[trigger] vset(s0.clients.ids()[id].view).contains(n) implies {
                let (p, q) = (s0.clients.ids()[id], self.state.clients.ids()[id]);
                &&& p.has(k, n) ==> q.has(k, n) && q.sels(k, n) == p.sels(k, n)
                &&& s0.buffers.m().contains_key(n) ==> text_of(self.state.buffers, n) == text_of(s0.buffers, n)
            } by {
                assert(in_view(sg.views, None, n));
                if s0.buffers.m().contains_key(n) { assert(s3.buffers.m().contains_key(n)); }
            }
            lemma_pic_of(s0, self.state, id, none().insert(vid), none(), none());
            lemma_frame(*old(self), *self, id);
        }
    }
    assert forall|id: usize| #[trigger] ids4.contains_key(id) && vkey(s0.clients.ids()[id].view) == vid implies to_notify@.contains(id) by {
        assert(all4.contains(id));
        let i = all4.index_of(id);
        assert(all4[i] == id);
        assert(forgot(s0.clients.ids()[id], sg.clients.ids()[id], vid));
        assert(s0.clients.ids()[id].view == ids4[id].view);
    }
//@ end
//@ if texts
//@ loop 5 entry
    let ghost s6 = self.state;
//@ loop 5 end
    proof { if s5.buffers.m().contains_key(BUFFER_DEBUG@) { lemma_longer(s5.buffers.m()[BUFFER_DEBUG@], s6.buffers.m()[BUFFER_DEBUG@], self.state.buffers.m()[BUFFER_DEBUG@]); } }
//@ before self . notify_view_update
    proof {
        let d = BUFFER_DEBUG@;
        assert forall|n: Seq<char>| #[trigger] s0.buffers.m().contains_key(n) && left(s0, vid, none(), n) implies self.state.buffers.m().contains_key(n)
            && (if n == d { longer(s0.buffers.m()[n], self.state.buffers.m()[n]) } else { self.state.buffers.m()[n] == s0.buffers.m()[n] }) by {
            assert(s3.buffers.m().contains_key(n) && s3.buffers.m()[n] == s0.buffers.m()[n]);
            assert(s5.buffers.m().contains_key(n) && s5.buffers.m()[n] == s0.buffers.m()[n]);
        }
        let n = BUFFER_SCRATCH@;
        reveal_strlit("*debug*"); reveal_strlit("*scratch*");
        assert(d.len() == 7 && n.len() == 9);
        if self.state.buffers.m().contains_key(n) && !(s0.buffers.m().contains_key(n) && left(s0, vid, none(), n)) {
            assert(s5.buffers.m().contains_key(n));
            assert(!s3.buffers.m().contains_key(n));
        }
    }
//@ end
//@ before self . notify_view_update
    proof {
        let debug = BUFFER_DEBUG@;
        let scratch = BUFFER_SCRATCH@;
        let o = s0;
        let c = self.state;
        let k = vid;
        assert(forall|x: Seq<char>| x != k && #[trigger] o.views.m().contains_key(x) ==> c.views.m().contains_key(x) && c.views.m()[x] == o.views.m()[x]);
        assert(forall|x: Seq<char>| #[trigger] c.views.m().contains_key(x) ==> x != k && o.views.m().contains_key(x) || vset(c.views.m()[x]) == set![scratch] && c.views.m().dom() == set![x]);
        assert forall|n: Seq<char>| #[trigger] s3.buffers.m().contains_key(n) implies s5.buffers.m().contains_key(n) by { }
        assert forall|n: Seq<char>| #[trigger] s5.buffers.m().contains_key(n) implies c.buffers.m().contains_key(n) by { }
        assert forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && !c.buffers.m().contains_key(n) implies vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n) by {
            assert(!s5.buffers.m().contains_key(n));
            assert(!s3.buffers.m().contains_key(n));
        }
        assert(forall|n: Seq<char>| #[trigger] vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n) && n != debug && n != scratch ==> !c.buffers.m().contains_key(n));
        assert(forall|n: Seq<char>| #[trigger] c.buffers.m().contains_key(n) && n != debug && n != scratch ==> o.buffers.m().contains_key(n) && c.buffers.m()[n] == o.buffers.m()[n]);
    }
//@ loop 5
    invariant
        self.state.ok(), self.state.same_but(s5, BUFFER_DEBUG@),
//@ if texts
        grew(s5, self.state, BUFFER_DEBUG@),
//@ end
//@ if tell
        self.notifier == old(self).notifier,
//@ end
//@ if pics
        keeps(c5, *self),
//@ end
    ensures true
    decreases vx_it5@.len()
//@ if looks
//@ before let mut to_notify
    let ghost mut w: View = arbitrary();
    proof {
        let f = forgotten(s0.views.order(), vid);
        if f.len() == 0 {
            w = self.state.views.m()[self.state.views.order()[0]];
            assert(only(w, BUFFER_SCRATCH@));
            assert(used(f, vkey(w)) =~= seq![vkey(w)]);
        }
        assert(self.state.views.order() =~= views_left(s0.views.order(), vid, w));
    }
//@ loop 4 after
    proof {
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) implies s0.clients.ids().contains_key(x)
            && eye(self.state, x) == (if eye(s0, x) == vid { views_left(s0.views.order(), vid, w)[0] } else { eye(s0, x) }) by {
            assert(all4.contains(x));
            let i = all4.index_of(x);
            assert(all4[i] == x);
            assert(forgot(s0.clients.ids()[x], sg.clients.ids()[x], vid));
        }
    }
//@ before self . notify_view_update
    proof {
        let vs = views_left(s0.views.order(), vid, w);
        assert(self.state.views.order() == vs);
        assert(self.state.clients.seats() == s0.clients.seats());
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) implies s0.clients.ids().contains_key(x) && eye(self.state, x) == (if eye(s0, x) == vid { vs[0] } else { eye(s0, x) }) by {
            assert(s5.clients.ids().contains_key(x));
        }
        assert(left_with(s0, self.state, s0.views.order(), vid, w));
    }
//@ end
//@ if sels
//@ before let mut to_notify
    proof {
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| self.state.clients.ids().contains_key(x) && #[trigger] self.state.clients.ids()[x].has(k, n) implies s0.clients.ids().contains_key(x)
            && got(s0.clients.ids()[x], self.state.clients.ids()[x], k, n, if k == vid { None } else { Some(k) }) by {
            assert(forgot(s0.clients.ids()[x], sg.clients.ids()[x], vid));
            if s3.views.order().len() == 0 {
                assert(sg.clients.ids()[x].names_ok(sg.views, none()));
                assert(sg.clients.ids()[x].keys().contains(k) <==> sg.views.m().contains_key(k));
            }
        }
    }
//@ loop 4 after
    let ghost s4z = self.state;
    proof {
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| self.state.clients.ids().contains_key(x) && #[trigger] self.state.clients.ids()[x].has(k, n) implies s0.clients.ids().contains_key(x)
            && got(s0.clients.ids()[x], self.state.clients.ids()[x], k, n, if k == vid { None } else { Some(k) }) by {
            assert(all4.contains(x));
            let i = all4.index_of(x);
            assert(all4[i] == x);
            assert(ids4[x].has(k, n));
        }
    }
//@ before self . notify_view_update
    proof {
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| self.state.clients.ids().contains_key(x) && #[trigger] self.state.clients.ids()[x].has(k, n) implies s0.clients.ids().contains_key(x)
            && got(s0.clients.ids()[x], self.state.clients.ids()[x], k, n, if k == vid { None } else { Some(k) }) by {
            lemma_same_has(s5, self.state, x, k, n);
        }
    }
//@ end
//@ fn Core::view
    requires old(self).state.ok(), old(self).state.has_view(), old(self).state.clients.ids().contains_key(client_id)
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        result is Err <==> !old(self).state.views.m().contains_key(view_id@) && !old(self).state.buffers.m().contains_key(view_id@),
        result is Err ==> final(self).state == old(self).state,
        final(self).state.ok(), final(self).state.has_view(), final(self).state.buffers == old(self).state.buffers,
        final(self).state.clients.ids().dom() == old(self).state.clients.ids().dom(),
        result is Ok ==> if old(self).state.views.m().contains_key(view_id@) {
            vkey(final(self).state.clients.ids()[client_id].view) == view_id@
        } else {
            vset(final(self).state.clients.ids()[client_id].view) == set![view_id@]
        },
//@ if sels
        old(self).state.views.m().contains_key(view_id@) ==> final(self).state.views == old(self).state.views,
//@ end
//@ if sels
        sels_stay(old(self).state, final(self).state),
//@ end
//@ if looks
        result is Ok ==> if old(self).state.views.m().contains_key(view_id@) { turned(old(self).state, final(self).state, client_id, view_id@) } else {
            exists|v: View| only(v, view_id@) && #[trigger] turned(old(self).state, final(self).state, client_id, vkey(v))
        },
//@ end
//@ if pics
        result is Err ==> final(self).notifier == old(self).notifier,
        result is Ok ==> final(self).current(client_id),
        keeps(*old(self), *final(self)),
        forall|id: usize| id != client_id && #[trigger] final(self).state.clients.ids().contains_key(id) ==> final(self).state.clients.ids()[id].view == old(self).state.clients.ids()[id].view,
//@ end
    decreases if old(self).state.views.m().contains_key(view_id@) { 0int } else { 1int }
//@ rewrite Rc :: clone (& state . views [$x]) => vx_copy (state . views . vx_index ($x))
//@ rewrite state . clients . get_mut (& client_id) . unwrap () . view = view ; => let vx_c = state . clients . vx_at (& client_id) ; vx_c . view = view ;
//@ entry
    let ghost s0 = self.state;
    let ghost mut v1: View = arbitrary();
    proof { broadcast use StackMap::axiom_order; }
//@ exit
    proof {
        if !s0.views.m().contains_key(view_id@) && vx_ret is Ok {
            assert(self.state.clients.ids().contains_key(client_id));
            lemma_same_key(v1, self.state.clients.ids()[client_id].view);
        }
    }
//@ before self . notify_view_update
    proof { lemma_viewed(s0, self.state, client_id); }
//@ if pics
//@ before self . notify_view_update
    assert(self.notifier == old(self).notifier);
//@ after self . notify_view_update
    proof {
        assert(seq![client_id].contains(client_id)) by { assert(seq![client_id][0] == client_id); }
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) && old(self).current(x) implies self.current(x) by {
            if x != client_id {
                assert(!seq![client_id].contains(x));
                assert(told_same(old(self).notifier, self.notifier, x));
                lemma_pic(s0, self.state, x, none());
                lemma_frame(*old(self), *self, x);
            }
        }
    }
//@ after self . add_view (view) ;
    proof { lemma_view_added(*old(self), *self, v0); }
//@ end
//@ after let key
    let ghost v0 = view;
    proof { v1 = view; }
//@ after self . add_view (view) ;
    proof {
        lemma_added(s0, self.state, v0, none(), none(), none());
        assert(none().remove(vkey(v0)) =~= none());
    }
//@ before self . view (client_id , & key)
    proof { if s0.views.m().contains_key(key@) { lemma_same_key(s0.views.m()[key@], v0); } }
//@ if looks
//@ before self . notify_view_update
    assert(turned(s0, self.state, client_id, view_id@));
//@ exit
    proof { if !s0.views.m().contains_key(view_id@) && vx_ret is Ok { assert(only(v1, view_id@) && turned(s0, self.state, client_id, vkey(v1))); } }
//@ end
//@ verus
/// a client looks at another view now
proof fn lemma_viewed(o: CoreState, c: CoreState, id: usize)
    requires
        o.ok(), o.clients.ids().contains_key(id), c.views == o.views, c.buffers == o.buffers,
        c.clients.ids() == o.clients.ids().insert(id, c.clients.ids()[id]),
        c.clients.ids()[id].selections == o.clients.ids()[id].selections,
        c.clients.ids()[id].view_ok(c.views, none()),
    ensures c.ok()
{
    assert forall|x: usize| #[trigger] c.clients.ids().contains_key(x) implies {
        let q = c.clients.ids()[x];
        q.view_ok(c.views, none()) && q.names_ok(c.views, none()) && q.lists_ok(c.buffers, none())
    } by {
        assert(o.clients.ids().contains_key(x));
        let (p, q) = (o.clients.ids()[x], c.clients.ids()[x]);
        assert forall|k: Seq<char>| (#[trigger] q.keys().contains(k) <==> c.views.m().contains_key(k))
            && (c.views.m().contains_key(k) ==> q.names(k) == vset(c.views.m()[k])) by { assert(p.keys().contains(k) <==> o.views.m().contains_key(k)); }
        assert forall|k: Seq<char>, m: Seq<char>| #[trigger] q.has(k, m) implies c.buffers.m().contains_key(m) && list_in(q.sels(k, m), text_of(c.buffers, m)) by { assert(p.has(k, m)); }
    }
}
//@ fn Core::delete_current_view
    requires old(self).state.ok(), old(self).state.has_view(), old(self).state.clients.ids().contains_key(client_id)
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(), final(self).state.has_view(),
        view_deleted(old(self).state, final(self).state, vkey(old(self).state.clients.ids()[client_id].view)),
//@ if sels
        sels_without(old(self).state, final(self).state, vkey(old(self).state.clients.ids()[client_id].view)),
//@ end
//@ if looks
        left_for(old(self).state, final(self).state, old(self).state.views.order(), eye(old(self).state, client_id)),
//@ end
//@ if texts
        buffers_left(old(self).state, final(self).state, vkey(old(self).state.clients.ids()[client_id].view), none()),
//@ end
//@ if pics
        redirected(*old(self), *final(self), vkey(old(self).state.clients.ids()[client_id].view)),
//@ end
//@ fn Core::cwd
//@ rewrite lock ! (self) . cwd . to_owned () => vx_copy (& self . state . cwd)
    ensures result == self.state.cwd
//@ fn Core::edit #[verifier::rlimit(30)] #[verifier::spinoff_prover]
//@ rewrite absolute . push ($$x) => vx_push_text (& mut absolute , $$x)
//@ rewrite Self :: clamp_selections (& mut lock ! (self) , name) => Self :: clamp_selections (& mut self . state , name)
    requires
        old(self).state.ok(), old(self).state.has_view(), old(self).state.clients.ids().contains_key(client_id),
        old(self).state.buffers.m().contains_key(name@) ==> old(self).state.buffers.m()[name@].readable(),
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(), final(self).state.has_view(),
        final(self).state.clients.ids().dom() == old(self).state.clients.ids().dom(),
        result is Err ==> final(self).state == old(self).state,
        scratch || old(self).state.buffers.m().contains_key(name@) ==> result is Ok,
        result is Ok ==> vset(final(self).state.clients.ids()[client_id].view) == set![name@],
        forall|n: Seq<char>| #[trigger] old(self).state.buffers.m().contains_key(n) ==> final(self).state.buffers.m().contains_key(n),
//@ if sels
        scratch && name@ != BUFFER_DEBUG@ && old(self).state.buffers.m().contains_key(name@) ==> text_of(final(self).state.buffers, name@) == text_of(old(self).state.buffers, name@),
        result is Ok && name@ != BUFFER_DEBUG@ ==> if old(self).state.buffers.m().contains_key(name@) && !scratch { sels_refit(old(self).state, final(self).state, name@) } else { sels_stay(old(self).state, final(self).state) },
//@ end
//@ if looks
        result is Ok ==> exists|v: View| only(v, name@) && #[trigger] turned_latest(old(self).state, final(self).state, client_id, vkey(v)),
//@ end
//@ if texts
        forall|n: Seq<char>| n != name@ && n != BUFFER_DEBUG@ ==> (#[trigger] final(self).state.buffers.m().contains_key(n) <==> old(self).state.buffers.m().contains_key(n))
            && (old(self).state.buffers.m().contains_key(n) ==> final(self).state.buffers.m()[n] == old(self).state.buffers.m()[n]),
        name@ != BUFFER_DEBUG@ ==> grew(old(self).state, final(self).state, BUFFER_DEBUG@),
        result is Ok && name@ != BUFFER_DEBUG@ ==> edited(old(self).state, final(self).state, name@, scratch),
//@ end
//@ if pics
        result is Err ==> final(self).notifier == old(self).notifier,
        keeps(*old(self), *final(self)), result is Ok ==> final(self).current(client_id),
//@ exit
    proof {
        if vx_ret is Ok {
            assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) && old(self).current(x) implies self.current(x) by {
                assert(ca.state.clients.ids().contains_key(x));
                assert(cd.state.clients.ids().contains_key(x));
                let shows = vset(s0.clients.ids()[x].view).contains(name@);
                if x == client_id || !(notify_change && shows) { assert(cd.current(x)); }
                if notify_change {
                    if x != client_id && shows { assert(cd.state.clients.ids()[x].view == s0.clients.ids()[x].view); assert(who.contains(x)); assert(self.current(x)); }
                    if !who.contains(x) { assert(told_same(cd.notifier, self.notifier, x)); }
                }
            }
            assert(cd.current(client_id));
            if notify_change && !who.contains(client_id) { assert(told_same(cd.notifier, self.notifier, client_id)); }
        }
    }
//@ entry
    let ghost mut cm = *self;
    let ghost mut who = Seq::<usize>::empty();
//@ after self . open_scratch (name , String :: new ()) ;
    proof { assert(self.notifier == old(self).notifier); }
//@ after Self :: clamp_selections
    // assumed: clamping moves no selection of a text that has stayed what it was
    proof {
        if !reloaded { assume(self.state.clients == s0.clients); }
        assert(self.notifier == old(self).notifier);
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) && old(self).current(x) && !(reloaded && vset(s0.clients.ids()[x].view).contains(name@)) implies self.current(x) by {
            if reloaded { lemma_unseen(*old(self), *self, x, name@); }
            else { lemma_pic(s0, self.state, x, none()); lemma_frame(*old(self), *self, x); }
        }
        cm = *self;
    }
//@ before let view = View
    let ghost ca = *self;
    proof {
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) implies s0.clients.ids().contains_key(x) && self.state.clients.ids()[x].view == s0.clients.ids()[x].view
            && (old(self).current(x) && !(notify_change && vset(s0.clients.ids()[x].view).contains(name@)) ==> self.current(x)) by {
            if old(self).current(x) && !(notify_change && vset(s0.clients.ids()[x].view).contains(name@)) {
                if s0.buffers.m().contains_key(name@) {
                    if scratch { assert(self.state == s0); } else { assert(cm.current(x)); }
                } else {
                    let v = s0.clients.ids()[x].view;
                    assert(s0.clients.ids()[x].view_ok(s0.views, none()));
                    assert(s0.views.m().contains_key(vkey(v)));
                    assert(!vset(v).contains(name@));
                    lemma_unseen(*old(self), *self, x, name@);
                }
            }
        }
    }
//@ after self . add_view (view) ;
    proof { lemma_view_added(ca, *self, v0); }
    let ghost cv = *self;
//@ before if notify_change
    let ghost cd = *self;
    proof {
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) && ca.current(x) implies self.current(x) by { assert(cv.state.clients.ids().contains_key(x)); assert(cv.current(x)); }
    }
//@ before self . notify_view_update
    proof {
        who = client_ids@;
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) && x != client_id && vset(self.state.clients.ids()[x].view).contains(name@) implies who.contains(x) by { }
    }
//@ end
//@ entry
    let ghost s0 = self.state;
//@ if texts
    let ghost d = BUFFER_DEBUG@;
    proof { lemma_longer_self(s0.buffers.m()[d]); }
//@ before let view = View
    proof {
        if exists && !scratch && name@ != d { assert(loaded(s0.buffers.m()[name@], self.state.buffers.m()[name@], notify_change)); }
        assert(name@ != d ==> grew(s0, self.state, d));
        assert(name@ != d ==> edited(s0, self.state, name@, scratch));
    }
//@ after self . view (client_id , & view_id) ?
    let ghost s3 = self.state;
//@ exit
    proof {
        if vx_ret is Ok && name@ != d && s0.buffers.m().contains_key(d) {
            lemma_longer(s0.buffers.m()[d], s3.buffers.m()[d], self.state.buffers.m()[d]);
        }
    }
//@ end
//@ after self . open_scratch (name , String :: new ()) ;
    proof {
        let b = choose|b: Buffer| scratched(s0, self.state, name@, b);
        lemma_scratched(s0, self.state, name@, b, none(), none(), none());
        assert(none().remove(name@) =~= none());
    }
//@ before Self :: clamp_selections
    let ghost s1 = self.state;
    proof { lemma_replaced(s0, s1, name@, none(), none(), none()); }
//@ after Self :: clamp_selections
    proof {
        lemma_clamped(s1, self.state, name@, none(), none().insert(name@), none());
        assert(none().insert(name@).remove(name@) =~= none());
    }
    let ghost s1c = self.state;
//@ after self . debug
    proof { assert forall|n: Seq<char>| #[trigger] s0.buffers.m().contains_key(n) implies self.state.buffers.m().contains_key(n) by { assert(s1c.buffers.m().contains_key(n)); } }
//@ before let view_id
    let ghost v0 = view;
    let ghost s2 = self.state;
    proof {
        assert(s2.buffers.m().contains_key(name@));
        assert forall|n: Seq<char>| #[trigger] s0.buffers.m().contains_key(n) implies s2.buffers.m().contains_key(n) by { }
        assert forall|n: Seq<char>| #[trigger] vset(v0).contains(n) implies n == name@ by { }
    }
//@ after self . add_view (view) ;
    proof {
        lemma_added(s2, self.state, v0, none(), none(), none());
        assert(none().remove(vkey(v0)) =~= none());
    }
//@ after self . view (client_id , & view_id) ?
    proof { lemma_same_key(v0, self.state.clients.ids()[client_id].view); }
//@ loop 0 before
    let ghost all = vx_it0@;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        forall|i: int| 0 <= i < all.len() ==> self.state.clients.ids().contains_key(#[trigger] all[i]),
        forall|i: int| 0 <= i < vx_acc0@.len() ==> self.state.clients.ids().contains_key(#[trigger] vx_acc0@[i]),
//@ if pics
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() && #[trigger] all[i] != client_id ==> vx_acc0@.contains(all[i]),
//@ end
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost acc = vx_acc0@;
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[all.len() - vx_it0@.len()]); } }
//@ if pics
//@ loop 0 end
    proof {
        let x = all[all.len() - vx_it0@.len() - 1];
        assert(x != client_id ==> vx_acc0@ == acc.push(x));
        assert forall|y: usize| acc.contains(y) implies vx_acc0@.contains(y) by { let i = acc.index_of(y); assert(vx_acc0@[i] == y); }
        if x != client_id { assert(vx_acc0@[acc.len() as int] == x); }
    }
//@ loop 0 after
    assert forall|x: usize| all.contains(x) && x != client_id implies vx_acc0@.contains(x) by { let i = all.index_of(x); assert(all[i] == x); }
//@ end
//@ if looks
//@ exit
    proof { if vx_ret is Ok { assert(only(v1, name@) && turned_latest(s0, self.state, client_id, vkey(v1))); } }
//@ entry
    let ghost mut v1: View = arbitrary();
//@ before let view_id
    proof { v1 = view; }
//@ end
//@ if sels
//@ before let view_id
    proof {
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| s2.clients.ids().contains_key(x) && #[trigger] s2.clients.ids()[x].has(k, n) implies s0.clients.ids().contains_key(x)
            && s0.clients.ids()[x].has(k, n) && (if n == name@ && s0.buffers.m().contains_key(name@) && !scratch {
                name@ != BUFFER_DEBUG@ ==> list_clamped(s0.clients.ids()[x].sels(k, n), s2.clients.ids()[x].sels(k, n), text_of(s2.buffers, n))
            } else { s2.clients.ids()[x].sels(k, n) == s0.clients.ids()[x].sels(k, n) }) by {
            lemma_same_has(s0, s2, x, k, n);
        }
    }
//@ after self . add_view (view) ;
    let ghost s3a = self.state;
//@ after self . view (client_id , & view_id) ?
    let ghost s3b = self.state;
    proof { gs3b = s3b; gs2 = s2; }
    proof {
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| s3b.clients.ids().contains_key(x) && #[trigger] s3b.clients.ids()[x].has(k, n) implies s2.clients.ids().contains_key(x)
            && got(s2.clients.ids()[x], s3b.clients.ids()[x], k, n, Some(k)) && s3b.buffers == s2.buffers by {
            lemma_same_has(s3a, s3b, x, k, n);
            assert(ctx_added(s2.clients.ids()[x], s3a.clients.ids()[x], v0));
        }
    }
//@ exit
    proof {
        if vx_ret is Ok && name@ != BUFFER_DEBUG@ {
            assert forall|x: usize, k: Seq<char>, n: Seq<char>| self.state.clients.ids().contains_key(x) && #[trigger] self.state.clients.ids()[x].has(k, n) implies
                s0.clients.ids().contains_key(x) && ({
                    let (p, q) = (s0.clients.ids()[x], self.state.clients.ids()[x]);
                    if s0.buffers.m().contains_key(name@) && !scratch && n == name@ && p.has(k, n) { list_clamped(p.sels(k, n), q.sels(k, n), text_of(self.state.buffers, n)) } else { got(p, q, k, n, Some(k)) }
                }) by {
                lemma_same_has(gs3b, self.state, x, k, n);
                lemma_same_has(s0, gs2, x, k, n);
            }
        }
    }
//@ end
//@ if sels
//@ entry
    let ghost mut gs3b = self.state;
    let ghost mut gs2 = self.state;
//@ end
//@ verus
/// the selections for view k become those for view v, as far as v shows the buffers
spec fn ctx_moved(o: ClientContext, c: ClientContext, k: Seq<char>, v: View) -> bool {
    &&& c.view == o.view
    &&& !o.keys().contains(k) ==> c.selections.m() == o.selections.m()
    // those who look elsewhere keep what they have for v
    &&& o.keys().contains(k) && vkey(o.view) != k && o.keys().contains(vkey(v)) ==> c.selections.m() == o.selections.m().remove(k)
    &&& o.keys().contains(k) && (vkey(o.view) == k || !o.keys().contains(vkey(v))) ==> {
        &&& c.selections.m() == o.selections.m().remove(k).insert(vkey(v), c.selections.m()[vkey(v)])
        &&& kept_sels(o.selections.m()[k].m(), c.selections.m()[vkey(v)].m(), vset(v))
    }
}
spec fn kept_sels(o: Map<Seq<char>, Vec<Selection>>, c: Map<Seq<char>, Vec<Selection>>, names: Set<Seq<char>>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] c.contains_key(n) ==> names.contains(n) && o.contains_key(n) && c[n] == o[n]
//@ if sels
    &&& forall|n: Seq<char>| #[trigger] o.contains_key(n) && names.contains(n) ==> c.contains_key(n)
//@ end
}
proof fn lemma_moved(o: CoreState, c: CoreState, k: Seq<char>, v: View)
    requires
        o.ok(), v.wf(), whole(v), c.buffers == o.buffers, c.views == o.views, c.clients.ids().dom() == o.clients.ids().dom(), o.views.m().contains_key(k), vkey(v) != k,
        forall|id: usize| #[trigger] o.clients.ids().contains_key(id) ==> ctx_moved(o.clients.ids()[id], c.clients.ids()[id], k, v),
    ensures
        c.parts(none().insert(k).insert(vkey(v)), none(), none()),
        forall|id: usize, n: Seq<char>| #[trigger] c.clients.ids().contains_key(id) && #[trigger] c.clients.ids()[id].has(vkey(v), n) ==> vset(v).contains(n),
{
    let xs = none().insert(k).insert(vkey(v));
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies {
        let q = c.clients.ids()[id];
        q.view_ok(c.views, none()) && q.names_ok(c.views, xs) && q.lists_ok(c.buffers, none())
    } by {
        assert(o.clients.ids().contains_key(id));
        let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
        assert(ctx_moved(p, q, k, v));
        assert(p.keys().contains(k));
        assert(q.names_ok(c.views, xs)) by {
            assert forall|x: Seq<char>| !xs.contains(x) implies (#[trigger] q.keys().contains(x) <==> c.views.m().contains_key(x))
                && (c.views.m().contains_key(x) ==> q.names(x) == vset(c.views.m()[x])) by {
                assert(x != k && x != vkey(v));
                assert(p.keys().contains(x) <==> o.views.m().contains_key(x));
                assert(q.keys() =~= p.keys().remove(k).insert(vkey(v)) || q.keys() =~= p.keys().remove(k));
                if p.keys().contains(x) { assert(q.selections.m()[x] == p.selections.m()[x]); }
            }
        }
        assert(q.lists_ok(c.buffers, none())) by {
            assert forall|x: Seq<char>, m: Seq<char>| #[trigger] q.has(x, m) implies c.buffers.m().contains_key(m) && list_in(q.sels(x, m), text_of(c.buffers, m)) by {
                if x == vkey(v) && (vkey(p.view) == k || !p.keys().contains(x)) { assert(p.has(k, m)); } else { assert(p.has(x, m)); }
            }
        }
    }
    assert forall|id: usize, n: Seq<char>| #[trigger] c.clients.ids().contains_key(id) && #[trigger] c.clients.ids()[id].has(vkey(v), n) implies vset(v).contains(n) by {
        let p = o.clients.ids()[id];
        assert(o.clients.ids().contains_key(id));
        assert(ctx_moved(p, c.clients.ids()[id], k, v));
        assert(p.keys().contains(k));
        if vkey(p.view) != k && p.keys().contains(vkey(v)) {
            assert(o.views.m().contains_key(vkey(v)));
            lemma_same_key(v, o.views.m()[vkey(v)]);
        }
    }
}
proof fn lemma_parts_more(c: CoreState, xs: Set<Seq<char>>)
    requires c.ok()
    ensures c.parts(xs, none(), none())
{
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies {
        let q = c.clients.ids()[id];
        q.view_ok(c.views, none()) && q.names_ok(c.views, xs) && q.lists_ok(c.buffers, none())
    } by { }
}
//@ fn Core::modify_view #[verifier::rlimit(30)] #[verifier::spinoff_prover]
//@ rewrite context . view . borrow () . key () == old_key => vx_same (& context . view . key () , & old_key)
//@ rewrite modify_view < F > => modify_view
//@ rewrite f : F => vx_new : View
//@ rewrite where F : Fn (& mut View) , =>
//@ rewrite f (& mut new_view) ; => new_view = vx_new ;
//@ rewrite old_key != new_key => ! vx_same (& old_key , & new_key)
    requires
        old(self).state.ok(), old(self).state.has_view(), old(self).state.views.m().contains_key(view_id@),
        vx_new.wf(), whole(vx_new), forall|n: Seq<char>| #[trigger] vset(vx_new).contains(n) ==> old(self).state.buffers.m().contains_key(n),
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(), final(self).state.has_view(),
        final(self).state.clients.ids().dom() == old(self).state.clients.ids().dom(),
        vkey(vx_new) == view_id@ ==> final(self).state == old(self).state,
        vkey(vx_new) != view_id@ ==> view_replaced(old(self).state, final(self).state, view_id@, vx_new),
//@ if sels
        vkey(vx_new) != view_id@ ==> sels_swapped(old(self).state, final(self).state, view_id@, vx_new),
//@ end
//@ if looks
        vkey(vx_new) != view_id@ ==> swapped(old(self).state, final(self).state, view_id@, vx_new),
//@ end
//@ if texts
        vkey(vx_new) != view_id@ ==> buffers_left(old(self).state, final(self).state, view_id@, vset(vx_new)),
//@ end
//@ if pics
        vkey(vx_new) == view_id@ ==> final(self).notifier == old(self).notifier,
        vkey(vx_new) != view_id@ ==> redirected(*old(self), *final(self), view_id@),
//@ before self . add_view (new_view)
    let ghost c1 = *self;
//@ before self . delete_view (& old_key)
    let ghost c2 = *self;
    proof {
        assert(c2.notifier == old(self).notifier);
        assert forall|id: usize| #[trigger] s0.clients.ids().contains_key(id) implies c2.state.clients.ids().contains_key(id) && c2.state.clients.ids()[id].view == s0.clients.ids()[id].view
            && (vkey(s0.clients.ids()[id].view) != vid && old(self).current(id) ==> c2.current(id)) by {
            if c2.state != s0 {
                let (p, q) = (s0.clients.ids()[id], c2.state.clients.ids()[id]);
                let k = vkey(p.view);
                assert(ctx_moved(p, sm.clients.ids()[id], vid, vx_new));
                assert(ctx_added(sm.clients.ids()[id], q, vx_new));
                assert(p.view_ok(s0.views, none()) && p.names_ok(s0.views, none()));
                assert(p.keys().contains(k) <==> s0.views.m().contains_key(k));
                if k != vid && old(self).current(id) {
                    let r = sm.clients.ids()[id];
                    assert(r.keys().contains(k) && r.selections.m()[k] == p.selections.m()[k]);
                    assert forall|n: Seq<char>| #[trigger] vset(p.view).contains(n) implies {
                        p.has(k, n) ==> q.has(k, n) && q.sels(k, n) == p.sels(k, n)
                    } by {
                        if p.has(k, n) { assert(r.selections.m()[k].m().contains_key(n)); if k == vkey(vx_new) { assert(q.selections.m()[k].m().contains_key(n)); } }
                    }
                    lemma_pic_of(s0, c2.state, id, none(), none(), none());
                    lemma_frame(*old(self), c2, id);
                }
            }
        }
    }
//@ after self . delete_view (& old_key)
    proof {
        assert forall|id: usize| #[trigger] self.state.clients.ids().contains_key(id) && (vkey(s0.clients.ids()[id].view) == vid || old(self).current(id)) implies self.current(id) by {
            assert(s0.clients.ids().contains_key(id));
        }
    }
//@ end
//@ entry
    let ghost s0 = self.state;
    let ghost vid = view_id@;
    let ghost mut sm = self.state;
//@ loop 0 before
    let ghost all = vx_it0@;
    let ghost ids0 = self.state.clients.ids();
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        all.no_duplicates(), forall|k: usize| ids0.contains_key(k) <==> #[trigger] all.contains(k),
//@ if notified
        self.notifier == old(self).notifier,
//@ end
        self.state.buffers == s0.buffers, self.state.views == s0.views, new_key@ == vkey(new_view), new_key@ != old_key@,
//@ if looks
        self.state.clients.seats() == s0.clients.seats(),
//@ end
        self.state.clients.ids().dom() == ids0.dom(),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> ctx_moved(ids0[#[trigger] all[i]], self.state.clients.ids()[all[i]], old_key@, new_view),
        forall|i: int| all.len() - vx_it0@.len() <= i < all.len() ==> ids0[#[trigger] all[i]] == self.state.clients.ids()[all[i]],
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost n0 = all.len() - vx_it0@.len();
    let ghost cl0 = self.state.clients.ids();
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[n0 as int]); assert(all.contains(all[n0 as int])); } }
//@ loop 0 end
    proof {
        assert(self.state.clients.ids().dom() =~= ids0.dom());
        assert forall|i: int| 0 <= i < all.len() && i != n0 implies self.state.clients.ids()[#[trigger] all[i]] == cl0[all[i]] by { }
        let (o, c) = (ids0[all[n0 as int]], self.state.clients.ids()[all[n0 as int]]);
        if !o.keys().contains(old_key@) { assert(o.selections.m().remove(old_key@) =~= o.selections.m()); }
        assert(ctx_moved(o, c, old_key@, new_view));
    }
//@ loop 0 after
    proof {
        assert forall|id: usize| #[trigger] ids0.contains_key(id) implies ctx_moved(ids0[id], self.state.clients.ids()[id], old_key@, new_view) by { assert(all.contains(id)); }
        lemma_moved(s0, self.state, vid, new_view);
        sm = self.state;
    }
//@ loop 1 before
    let ghost all1 = vx_it1@;
    let ghost m0 = old_sels.m();
//@ loop 1
    invariant
        vx_it1@.len() <= all1.len(), vx_it1@ == all1.skip(all1.len() - vx_it1@.len()),
        lists(all1, m0.dom()),
        forall|n: Seq<char>| #[trigger] old_sels.m().contains_key(n) ==> m0.contains_key(n) && old_sels.m()[n] == m0[n],
//@ if sels
        forall|n: Seq<char>| #[trigger] m0.contains_key(n) && vset(new_view).contains(n) ==> old_sels.m().contains_key(n),
//@ end
        forall|i: int| 0 <= i < all1.len() - vx_it1@.len() ==> old_sels.m().contains_key((#[trigger] all1[i])@) ==> vset(new_view).contains(all1[i]@),
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ loop 1 entry
    let ghost n1 = all1.len() - vx_it1@.len();
    proof { if vx_it1@.len() > 0 { assert(vx_it1@[0] == all1[n1 as int]); } }
//@ loop 1 after
    proof {
        assert(kept_sels(m0, old_sels.m(), vset(new_view))) by {
            assert forall|n: Seq<char>| #[trigger] old_sels.m().contains_key(n) implies vset(new_view).contains(n) by {
                assert(listed(all1, n));
            }
        }
    }
//@ before self . add_view (new_view)
    let ghost s1 = self.state;
    let ghost v1 = new_view;
//@ after self . add_view (new_view)
    proof {
        lemma_added(s1, self.state, v1, none().insert(vid).insert(vkey(v1)), none(), none());
        assert(none().insert(vid).insert(vkey(v1)).remove(vkey(v1)) =~= none().insert(vid));
    }
//@ before self . delete_view (& old_key)
    let ghost s2 = self.state;
    proof {
        if exists|n: Seq<char>| vset(vx_new).contains(n) {
            let n = choose|n: Seq<char>| vset(vx_new).contains(n);
            assert(vx_new.groups().contains_key(n));
        } else {
            assert forall|n: Seq<char>| !#[trigger] vx_new.groups().contains_key(n) by { assert(!vset(vx_new).contains(n)); }
            lemma_parts_more(self.state, none().insert(vid));
        }
    }
//@ after self . delete_view (& old_key)
    proof { lemma_replaced_view(s0, s2, self.state, vid, vx_new); }
//@ if texts
    proof { lemma_left(s0, s2, self.state, vid, vx_new); }
//@ end
//@ if looks
//@ loop 0 after
    let ghost t1 = self.state;
    assert(forall|x: usize| #[trigger] t1.clients.ids().contains_key(x) ==> s0.clients.ids().contains_key(x) && eye(t1, x) == eye(s0, x));
//@ before self . delete_view (& old_key)
    assert(forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) ==> s0.clients.ids().contains_key(x) && eye(self.state, x) == eye(s0, x));
//@ after self . delete_view (& old_key)
    proof {
        let w = choose|w: View| (forgotten(s2.views.order(), vid).len() == 0 ==> only(w, BUFFER_SCRATCH@)) && #[trigger] left_with(s2, self.state, s2.views.order(), vid, w);
        let vs = if exists|n: Seq<char>| vset(vx_new).contains(n) { used(s0.views.order(), vkey(vx_new)) } else { s0.views.order() };
        assert(s2.views.order() == vs);
        assert(left_with(s0, self.state, vs, vid, w));
    }
//@ end
//@ if sels
//@ after self . delete_view (& old_key)
    proof {
        lemma_replaced_view(s0, s2, self.state, vid, vx_new);
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| self.state.clients.ids().contains_key(x) && #[trigger] self.state.clients.ids()[x].has(k, n) implies s0.clients.ids().contains_key(x)
            && got(s0.clients.ids()[x], self.state.clients.ids()[x], k, n, moved_from(s0.clients.ids()[x], vid, vx_new, k)) by {
            let (p, q) = (s0.clients.ids()[x], self.state.clients.ids()[x]);
            assert(q.names_ok(self.state.views, none()) && p.names_ok(s0.views, none()));
            assert(q.keys().contains(k) <==> self.state.views.m().contains_key(k));
            assert(p.keys().contains(k) <==> s0.views.m().contains_key(k));
            assert(p.keys().contains(vid) <==> s0.views.m().contains_key(vid));
            if exists|n: Seq<char>| vset(vx_new).contains(n) {
                assert(ctx_moved(p, sm.clients.ids()[x], vid, vx_new));
                assert(ctx_added(sm.clients.ids()[x], s2.clients.ids()[x], vx_new));
                let (r, t) = (sm.clients.ids()[x], s2.clients.ids()[x]);
                if k == vid { }
                else if k == vkey(vx_new) {
                    assert(self.state.views.m()[k] == vx_new);
                    assert(vset(vx_new).contains(n));
                    assert(t.selections.m()[k].m().contains_key(n));
                    assert(t.has(k, n));
                    assert(q.sels(k, n) == t.sels(k, n));
                    if r.has(k, n) { assert(t.sels(k, n) == r.sels(k, n)); } else { assert(fresh_list(t.sels(k, n))); }
                } else {
                    if p.has(k, n) { assert(r.has(k, n)); assert(t.has(k, n)); }
                    assert(t.has(k, n) ==> p.has(k, n));
                }
            } else if k == vkey(vx_new) {
                lemma_same_key(vx_new, self.state.views.m()[k]);
                assert(vset(self.state.views.m()[k]).contains(n));
            }
        }
    }
//@ end
//@ verus
/// view v has taken the place of view k: the others are there, and of the buffers only those are
/// gone that k alone showed (logs and the scratch buffer come back)
spec fn view_replaced(o: CoreState, c: CoreState, k: Seq<char>, v: View) -> bool {
    let debug = BUFFER_DEBUG@;
    let scratch = BUFFER_SCRATCH@;
    &&& forall|x: Seq<char>| x != k && x != vkey(v) && #[trigger] o.views.m().contains_key(x) ==> c.views.m().contains_key(x)
    &&& (exists|n: Seq<char>| vset(v).contains(n)) ==> c.views.m().contains_key(vkey(v)) && c.views.m()[vkey(v)] == v && !c.views.m().contains_key(k)
    &&& forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && !c.buffers.m().contains_key(n) ==> vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n) && !vset(v).contains(n)
    &&& forall|n: Seq<char>| #[trigger] vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n) && !vset(v).contains(n) && n != debug && n != scratch ==> !c.buffers.m().contains_key(n)
    &&& forall|n: Seq<char>| #[trigger] c.buffers.m().contains_key(n) && n != debug && n != scratch ==> o.buffers.m().contains_key(n) && c.buffers.m()[n] == o.buffers.m()[n]
}
proof fn lemma_replaced_view(o: CoreState, m: CoreState, c: CoreState, k: Seq<char>, v: View)
    requires
        o.ok(), v.wf(), whole(v), o.views.m().contains_key(k), vkey(v) != k, m.buffers == o.buffers, view_deleted(m, c, k), c.ok(),
        if exists|n: Seq<char>| vset(v).contains(n) { m.views.m() == o.views.m().insert(vkey(v), v) } else { m.views == o.views },
    ensures view_replaced(o, c, k, v)
{
    if o.views.m().contains_key(vkey(v)) { lemma_same_key(o.views.m()[vkey(v)], v); }
    assert forall|n: Seq<char>| #[trigger] in_view(m.views, Some(k), n) <==> in_view(o.views, Some(k), n) || vset(v).contains(n) by {
        if in_view(m.views, Some(k), n) {
            let x = choose|x: Seq<char>| #[trigger] m.views.m().contains_key(x) && Some(x) != Some(k) && vset(m.views.m()[x]).contains(n);
            if !vset(v).contains(n) { assert(o.views.m().contains_key(x)); }
        }
        if in_view(o.views, Some(k), n) {
            let x = choose|x: Seq<char>| #[trigger] o.views.m().contains_key(x) && Some(x) != Some(k) && vset(o.views.m()[x]).contains(n);
            assert(m.views.m().contains_key(x));
        }
        if vset(v).contains(n) { assert(m.views.m().contains_key(vkey(v))); }
    }
    assert(m.views.m()[k] == o.views.m()[k]);
    assert forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && !c.buffers.m().contains_key(n) implies vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n) && !vset(v).contains(n) by {
        assert(m.buffers.m().contains_key(n));
        assert(!in_view(m.views, Some(k), n));
    }
    assert forall|n: Seq<char>| #[trigger] vset(o.views.m()[k]).contains(n) && !in_view(o.views, Some(k), n) && !vset(v).contains(n) && n != BUFFER_DEBUG@ && n != BUFFER_SCRATCH@ implies !c.buffers.m().contains_key(n) by {
        assert(!in_view(m.views, Some(k), n));
        assert(vset(m.views.m()[k]).contains(n));
    }
    assert forall|x: Seq<char>| x != k && x != vkey(v) && #[trigger] o.views.m().contains_key(x) implies c.views.m().contains_key(x) by { assert(m.views.m().contains_key(x)); }
    if exists|n: Seq<char>| vset(v).contains(n) {
        assert(m.views.m().contains_key(vkey(v)));
        assert(c.views.m().contains_key(vkey(v)) && c.views.m()[vkey(v)] == v);
        assert(!c.views.m().contains_key(k)) by {
            if c.views.m().contains_key(k) { assert(c.views.m().dom() == set![k]); assert(c.views.m().dom().contains(vkey(v))); }
        }
    }
}
//@ if texts
//@ verus
proof fn lemma_left(o: CoreState, m: CoreState, c: CoreState, k: Seq<char>, v: View)
    requires
        o.ok(), v.wf(), whole(v), o.views.m().contains_key(k), vkey(v) != k, m.buffers == o.buffers, buffers_left(m, c, k, none()),
        if exists|n: Seq<char>| vset(v).contains(n) { m.views.m() == o.views.m().insert(vkey(v), v) } else { m.views == o.views },
    ensures buffers_left(o, c, k, vset(v))
{
    if o.views.m().contains_key(vkey(v)) { lemma_same_key(o.views.m()[vkey(v)], v); }
    assert(m.views.m()[k] == o.views.m()[k]);
    assert forall|n: Seq<char>| #[trigger] left(m, k, none(), n) <==> left(o, k, vset(v), n) by {
        if in_view(m.views, Some(k), n) {
            let x = choose|x: Seq<char>| #[trigger] m.views.m().contains_key(x) && Some(x) != Some(k) && vset(m.views.m()[x]).contains(n);
            if !vset(v).contains(n) { assert(o.views.m().contains_key(x)); assert(in_view(o.views, Some(k), n)); }
        }
        if in_view(o.views, Some(k), n) {
            let x = choose|x: Seq<char>| #[trigger] o.views.m().contains_key(x) && Some(x) != Some(k) && vset(o.views.m()[x]).contains(n);
            assert(m.views.m().contains_key(x));
            assert(in_view(m.views, Some(k), n));
        }
        if vset(v).contains(n) { assert(m.views.m().contains_key(vkey(v))); assert(in_view(m.views, Some(k), n)); }
    }
    assert forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && left(o, k, vset(v), n) implies c.buffers.m().contains_key(n)
        && (if n == BUFFER_DEBUG@ { longer(o.buffers.m()[n], c.buffers.m()[n]) } else { c.buffers.m()[n] == o.buffers.m()[n] }) by {
        assert(m.buffers.m().contains_key(n) && left(m, k, none(), n));
    }
    assert(left(m, k, none(), BUFFER_SCRATCH@) == left(o, k, vset(v), BUFFER_SCRATCH@));
}
//@ end
//@ verus
spec fn whole_added(v0: View, v: View, b: Seq<char>, l: Lens) -> bool {
    &&& l.focus is Whole
    &&& v.groups().dom() == v0.groups().dom().insert(b)
    &&& forall|k: Seq<char>| k != b && v0.groups().contains_key(k) ==> v.groups()[k] == #[trigger] v0.groups()[k]
    &&& v.groups()[b].0@.to_multiset() == lenses_in(v0.groups(), b).to_multiset().insert(l)
}
proof fn lemma_whole_added(v0: View, v: View, b: Seq<char>)
    requires whole(v0), exists|l: Lens| whole_added(v0, v, b, l)
    ensures whole(v)
{
    let l = choose|l: Lens| whole_added(v0, v, b, l);
    assert forall|k: Seq<char>, m: int| v.groups().contains_key(k) && 0 <= m < v.groups()[k].0@.len() implies (#[trigger] v.groups()[k].0@[m]).focus is Whole by {
        if k != b { assert(v0.groups().contains_key(k)); assert(v.groups()[k] == v0.groups()[k]); } else {
            let (s, s0) = (v.groups()[b].0@, lenses_in(v0.groups(), b));
            s.to_multiset_ensures();
            s0.to_multiset_ensures();
            assert(s.contains(s[m]));
            assert(s.to_multiset().count(s[m]) > 0);
            if s[m] != l {
                assert(s0.to_multiset().count(s[m]) > 0);
                assert(s0.contains(s[m]));
                let j = choose|j: int| 0 <= j < s0.len() && s0[j] == s[m];
                assert(v0.groups().contains_key(b) && v0.groups()[b].0@[j] == s[m]);
            }
        }
    }
}
//@ fn Core::add_to_current_view
//@ rewrite view . add_lens ($$l) ; => let vx_l = $$l ; view . add_lens (vx_l) ;
//@ rewrite self . modify_view (& view_id , | view | { $$b }) ; => let mut vx_v = vx_copy (self . state . views . vx_index (& view_id)) ; { let view = & mut vx_v ; $$b } self . modify_view (& view_id , vx_v) ;
    requires old(self).state.ok(), old(self).state.has_view(), old(self).state.clients.ids().contains_key(client_id)
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(), final(self).state.has_view(),
        final(self).state.clients.ids().dom() == old(self).state.clients.ids().dom(),
        result is Err <==> !old(self).state.buffers.m().contains_key(buffer@),
        result is Err ==> final(self).state == old(self).state,
//@ if sels
        result is Ok ==> exists|v: View, l: Lens| l.focus is Whole && l.buffer@ == buffer@ && #[trigger] whole_added(old(self).state.views.m()[vkey(old(self).state.clients.ids()[client_id].view)], v, buffer@, l)
            && sels_changed(old(self).state, final(self).state, vkey(old(self).state.clients.ids()[client_id].view), v),
//@ end
//@ if looks
        result is Ok ==> exists|v: View, l: Lens| l.focus is Whole && l.buffer@ == buffer@ && #[trigger] whole_added(old(self).state.views.m()[eye(old(self).state, client_id)], v, buffer@, l)
            && changed_to(old(self).state, final(self).state, eye(old(self).state, client_id), v),
//@ end
//@ if texts
        final(self).state == old(self).state || buffers_left(old(self).state, final(self).state, vkey(old(self).state.clients.ids()[client_id].view), vset(old(self).state.views.m()[vkey(old(self).state.clients.ids()[client_id].view)]).insert(buffer@)),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ end
//@ after let vx_l
    let ghost gl = vx_l;
//@ after view . add_lens (vx_l)
    proof {
        let v0 = self.state.views.m()[view_id@];
        assert(whole_added(v0, *view, buffer@, gl));
        lemma_whole_added(v0, *view, buffer@);
    }
//@ if looks
//@ entry
    let ghost mut gv: View = arbitrary();
    let ghost s0 = self.state;
//@ before self . modify_view
    proof { gv = vx_v; }
//@ exit
    proof {
        if vx_ret is Ok {
            let l = choose|l: Lens| whole_added(s0.views.m()[eye(s0, client_id)], gv, buffer@, l) && l.buffer@ == buffer@;
            assert(whole_added(s0.views.m()[eye(s0, client_id)], gv, buffer@, l));
        }
    }
//@ end
//@ if sels
//@ entry
    let ghost mut gv: View = arbitrary();
    let ghost s0 = self.state;
    let ghost k0 = vkey(s0.clients.ids()[client_id].view);
//@ before self . modify_view
    proof { gv = vx_v; }
//@ exit
    proof {
        if vx_ret is Ok {
            assert(sels_changed(s0, self.state, k0, gv));
            let l = choose|l: Lens| whole_added(s0.views.m()[k0], gv, buffer@, l) && l.buffer@ == buffer@;
            assert(whole_added(s0.views.m()[k0], gv, buffer@, l));
        }
    }
//@ end
//@ fn Core::remove_from_current_view
//@ rewrite self . modify_view (& view_id , | view | { $$b }) ; => let mut vx_v = vx_copy (self . state . views . vx_index (& view_id)) ; { let view = & mut vx_v ; $$b } self . modify_view (& view_id , vx_v) ;
    requires old(self).state.ok(), old(self).state.has_view(), old(self).state.clients.ids().contains_key(client_id)
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(), final(self).state.has_view(),
        final(self).state.clients.ids().dom() == old(self).state.clients.ids().dom(),
        result is Err <==> !old(self).state.buffers.m().contains_key(buffer@),
        result is Err ==> final(self).state == old(self).state,
//@ if sels
        result is Ok ==> exists|v: View| v.groups() == old(self).state.views.m()[vkey(old(self).state.clients.ids()[client_id].view)].groups().remove(buffer@)
            && #[trigger] sels_changed(old(self).state, final(self).state, vkey(old(self).state.clients.ids()[client_id].view), v),
//@ end
//@ if looks
        result is Ok ==> exists|v: View| v.groups() == old(self).state.views.m()[eye(old(self).state, client_id)].groups().remove(buffer@)
            && #[trigger] changed_to(old(self).state, final(self).state, eye(old(self).state, client_id), v),
//@ end
//@ if texts
        final(self).state == old(self).state || buffers_left(old(self).state, final(self).state, vkey(old(self).state.clients.ids()[client_id].view), vset(old(self).state.views.m()[vkey(old(self).state.clients.ids()[client_id].view)]).remove(buffer@)),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ end
//@ if looks
//@ entry
    let ghost mut gv: View = arbitrary();
    let ghost s0 = self.state;
//@ before self . modify_view
    proof { gv = vx_v; }
//@ exit
    proof {
        if vx_ret is Ok {
            let k = eye(s0, client_id);
            assert(gv.groups() =~= s0.views.m()[k].groups().remove(buffer@));
            assert(changed_to(s0, self.state, k, gv));
        }
    }
//@ end
//@ if sels
//@ entry
    let ghost mut gv: View = arbitrary();
    let ghost s0 = self.state;
    let ghost k0 = vkey(s0.clients.ids()[client_id].view);
//@ before self . modify_view
    proof { gv = vx_v; }
//@ exit
    proof {
        if vx_ret is Ok {
            assert(sels_changed(s0, self.state, k0, gv));
            assert(gv.groups() =~= s0.views.m()[k0].groups().remove(buffer@));
        }
    }
//@ end
//@ verus
fn vx_differ(a: &Selection, b: &Selection) -> (r: bool)
    ensures r == (*a != *b)
{ a.anchor != b.anchor || a.cursor != b.cursor || a.target_col != b.target_col }
/// one motion leads from `p` with remembered column `t` to `q` with `u`
spec fn steps(b: Seq<u8>, dir: CursorTarget, p: Coords, t: usize, q: Coords, u: usize) -> bool {
    match dir {
        CursorTarget::Left => q == left_of(b, p) && u == (if q == p { t } else { q.c }),
        CursorTarget::Right => q == right_of(b, p) && u == (if q == p { t } else { q.c }),
        CursorTarget::Up => u == t && q == (if p.l > 1 { Coords { l: (p.l - 1) as usize, c: reach(b, p.l - 1, t as int) as usize } } else { p }),
        CursorTarget::Down => u == t && q == (if p.l < nlines(b) { Coords { l: (p.l + 1) as usize, c: reach(b, p.l + 1, t as int) as usize } } else { p }),
        CursorTarget::LineBegin => u == 1 && q == (Coords { l: p.l, c: 1 }),
        CursorTarget::LineEnd => u == q.c && q.l == p.l && q.c == (if gcount(b, p.l as int) > 1 { gcount(b, p.l as int) } else { 1 }),
        CursorTarget::Begin => u == 1 && q == (Coords { l: 1, c: 1 }),
        CursorTarget::End => u == q.c && coord_of(b, q, if b.len() == 0 { 0 } else { b.len() - 1 }),
    }
}
/// the cursor went one motion on and the anchor with it, unless the selection was to be extended;
/// in a text of one byte nothing moves
spec fn sel_moved(b: Seq<u8>, dir: CursorTarget, extend: bool, o: Selection, c: Selection) -> bool {
    if b.len() == 1 { c == o } else {
        &&& sel_in(c, b)
//@ if sels
        &&& c.anchor == (if extend { o.anchor } else { c.cursor })
        &&& exists|p: Coords, q: Coords| went(b, dir, o, c, p, q)
//@ end
    }
}
spec fn went(b: Seq<u8>, dir: CursorTarget, o: Selection, c: Selection, p: Coords, q: Coords) -> bool {
    coord_of(b, p, o.cursor as int) && steps(b, dir, p, o.target_col, q, c.target_col) && c.cursor == offset_of(b, q)
}
spec fn list_moved(b: Seq<u8>, dir: CursorTarget, extend: bool, o: Sels, c: Sels) -> bool {
    c.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> sel_moved(b, dir, extend, #[trigger] o[i], c[i])
}
spec fn map_moved(bs: HashMap<String, Buffer>, dir: CursorTarget, extend: bool, o: Map<Seq<char>, Vec<Selection>>, c: Map<Seq<char>, Vec<Selection>>) -> bool {
    &&& c.dom() == o.dom()
    &&& forall|n: Seq<char>| #[trigger] o.contains_key(n) ==> list_moved(text_of(bs, n), dir, extend, o[n]@, c[n]@)
}
spec fn cursor_moved(o: CoreState, c: CoreState, id: usize, dir: CursorTarget, extend: bool) -> bool {
    let (p, q) = (o.clients.ids()[id], c.clients.ids()[id]);
    let k = vkey(p.view);
    &&& c.views == o.views && c.buffers == o.buffers && c.cwd == o.cwd
//@ if looks
    &&& c.clients.seats() == o.clients.seats()
//@ end
    &&& c.clients.ids() == o.clients.ids().insert(id, q)
    &&& q.view == p.view && q.selections.m() == p.selections.m().insert(k, q.selections.m()[k])
    &&& map_moved(o.buffers, dir, extend, p.selections.m()[k].m(), q.selections.m()[k].m())
}
proof fn lemma_cursor_moved(o: CoreState, c: CoreState, id: usize, dir: CursorTarget, extend: bool)
    requires o.ok(), o.clients.ids().contains_key(id), cursor_moved(o, c, id, dir, extend)
    ensures c.ok()
{
    assert forall|x: usize| #[trigger] c.clients.ids().contains_key(x) implies {
        let q = c.clients.ids()[x];
        q.view_ok(c.views, none()) && q.names_ok(c.views, none()) && q.lists_ok(c.buffers, none())
    } by {
        assert(o.clients.ids().contains_key(x));
        let (p, q) = (o.clients.ids()[x], c.clients.ids()[x]);
        let v = vkey(o.clients.ids()[id].view);
        if x == id { assert(p.keys().contains(v)); }
        assert(q.keys() =~= p.keys());
        assert(q.view_ok(c.views, none())) by { assert(p.view_ok(o.views, none())); }
        assert(q.names_ok(c.views, none())) by {
            assert(p.names_ok(o.views, none()));
            assert forall|k: Seq<char>| (#[trigger] q.keys().contains(k) <==> c.views.m().contains_key(k))
                && (c.views.m().contains_key(k) ==> q.names(k) == vset(c.views.m()[k])) by { assert(p.keys().contains(k) <==> o.views.m().contains_key(k)); }
        }
        assert(q.lists_ok(c.buffers, none())) by {
            assert(p.lists_ok(o.buffers, none()));
            assert forall|k: Seq<char>, m: Seq<char>| #[trigger] q.has(k, m) implies c.buffers.m().contains_key(m) && list_in(q.sels(k, m), text_of(c.buffers, m)) by {
                assert(p.has(k, m));
                if x == id && k == v { assert(sel_moved(text_of(o.buffers, m), dir, extend, p.sels(k, m)[0], q.sels(k, m)[0])); }
            }
        }
    }
}
//@ fn Core::move_cursor #[verifier::rlimit(30)] #[verifier::spinoff_prover]
//@ rewrite & s . clone () => & vx_copy (& * s)
//@ rewrite s != original => vx_differ (s , original)
    requires old(self).state.ok(), old(self).state.clients.ids().contains_key(client_id)
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(),
        cursor_moved(old(self).state, final(self).state, client_id, direction, extend),
//@ if pics
        keeps(*old(self), *final(self)),
//@ exit
    proof {
        assert(seq![client_id].contains(client_id)) by { assert(seq![client_id][0] == client_id); }
        assert(c1.notifier == old(self).notifier);
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) && old(self).current(x) implies self.current(x) by {
            let (p, q) = (s0.clients.ids()[x], self.state.clients.ids()[x]);
            let k = vkey(p.view);
            if x != client_id || !moved {
                if moved { assert(!seq![client_id].contains(x)); }
                assert(told_same(old(self).notifier, self.notifier, x));
                assert forall|n: Seq<char>| #[trigger] vset(p.view).contains(n) implies {
                    p.has(k, n) ==> q.has(k, n) && q.sels(k, n) == p.sels(k, n)
                } by { }
                lemma_pic_of(s0, self.state, x, none(), none(), none());
                lemma_frame(*old(self), *self, x);
            }
        }
    }
//@ before if moved
    let ghost c1 = *self;
//@ end
//@ entry
    let ghost s0 = self.state;
    proof {
        let c = s0.clients.ids()[client_id];
        let k = vkey(c.view);
        assert(s0.views.m().contains_key(k) && c.keys().contains(k));
        assert forall|n: Seq<char>| #[trigger] c.names(k).contains(n) implies s0.buffers.m().contains_key(n) && list_in(c.sels(k, n), text_of(s0.buffers, n)) by { assert(c.has(k, n)); }
    }
//@ loop 0 before
    let ghost all = vx_it0@;
    let ghost m0 = selections.m();
    proof { assert forall|n: Seq<char>| #[trigger] m0.contains_key(n) implies s0.buffers.m().contains_key(n) && list_in(m0[n]@, text_of(s0.buffers, n)) by { assert(s0.clients.ids()[client_id].names(curview@).contains(n)); } }
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        lists(all, m0.dom()), self.state == s0, s0.buffers_ok(),
        selections.m().dom() == m0.dom(),
//@ if notified
        self.notifier == old(self).notifier,
//@ end
//@ if pics
        !moved ==> forall|n: Seq<char>| #[trigger] m0.contains_key(n) ==> selections.m()[n]@ == m0[n]@,
//@ end
        forall|n: Seq<char>| #[trigger] m0.contains_key(n) ==> s0.buffers.m().contains_key(n) && list_in(m0[n]@, text_of(s0.buffers, n)),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> list_moved(text_of(s0.buffers, (#[trigger] all[i])@), direction, extend, m0[all[i]@]@, selections.m()[all[i]@]@),
        forall|i: int| all.len() - vx_it0@.len() <= i < all.len() ==> m0[(#[trigger] all[i])@] == selections.m()[all[i]@],
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost n0 = all.len() - vx_it0@.len();
    let ghost mm = selections.m();
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[n0 as int]); assert(m0.contains_key(all[n0 as int]@)); } }
//@ loop 0 end
    proof {
        assert(selections.m().dom() =~= m0.dom());
        assert forall|i: int| 0 <= i < all.len() && i != n0 implies selections.m()[(#[trigger] all[i])@] == mm[all[i]@] by { }
    }
//@ loop 0 after
    proof {
        assert forall|n: Seq<char>| #[trigger] m0.contains_key(n) implies list_moved(text_of(s0.buffers, n), direction, extend, m0[n]@, selections.m()[n]@) by {
            assert(listed(all, n));
        }
    }
//@ loop 1 before
    let ghost l0 = bss@;
    let ghost t = buffer.content.bytes();
//@ if pics
//@ loop 1 before
    let ghost mv0 = moved;
//@ end
//@ loop 1
    invariant
//@ if pics
        mv0 ==> moved, !moved ==> bss@ == l0,
//@ end
        bss@.len() == l0.len(), l0.len() == 1, t.len() != 1,
        vx_it1@.len() <= l0.len(), vx_it1@ == Seq::new(l0.len(), |i: int| i as usize).skip(l0.len() - vx_it1@.len()),
        list_in(l0, t), buffer.content.wf(), buffer.content.bytes() == t,
        forall|i: int| 0 <= i < l0.len() - vx_it1@.len() ==> sel_moved(t, direction, extend, #[trigger] l0[i], bss@[i]),
        forall|i: int| l0.len() - vx_it1@.len() <= i < l0.len() ==> l0[i] == #[trigger] bss@[i],
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ loop 1 entry
    let ghost n1 = l0.len() - vx_it1@.len();
    proof { if vx_it1@.len() > 0 { assert(vx_it1@[0] == n1 as usize); } }
//@ after let mut nv
    let ghost p = coord->0;
    proof {
        lemma_coord_place(t, p, s.cursor as int);
        lemma_place(t, p);
    }
//@ loop 1 end
    proof {
        lemma_place(t, nv.cursor);
//@ if sels
        assert(went(t, direction, l0[n1 as int], *s, p, nv.cursor));
//@ end
        assert(bss@[n1 as int] == *s);
    }
//@ if pics
//@ loop 1 entry
    let ghost bb = bss@;
//@ loop 1 end
    proof { if !moved { assert(bss@ =~= bb); } }
//@ end
//@ before if moved
    proof {
        assert(cursor_moved(s0, self.state, client_id, direction, extend)) by {
            assert(self.state.clients.ids() =~= s0.clients.ids().insert(client_id, self.state.clients.ids()[client_id]));
        }
        lemma_cursor_moved(s0, self.state, client_id, direction, extend);
    }
//@ verus
#[verifier::external_body]
fn vx_short(r: &VxOffsets)
    ensures r.end <= CAP()
{ unimplemented!() }
/// `e` is where the last grapheme of selection `s` ends
spec fn ends_at(b: Seq<u8>, s: Selection, e: int) -> bool {
    let g = grapheme_at(b, sel_end(s));
    &&& sel_begin(s) <= e
    &&& sel_end(s) == b.len() ==> e == sel_end(s)
    &&& sel_end(s) < b.len() && sbytes(lossy(g)) == g ==> sel_end(s) < e <= b.len() && e == sel_end(s) + g.len()
}
/// `b` without the bytes from `i` up to `e`; when nothing is left of it, an empty line
spec fn rest(b: Seq<u8>, i: int, e: int) -> Seq<u8> {
    let r = if i < e && i < b.len() { del_text(b, i, e) } else { b };
    if r.len() == 0 { seq![10u8] } else { r }
}
spec fn sel_cut(b: Seq<u8>, s: Selection, t: Seq<u8>) -> bool {
    exists|e: int| #[trigger] ends_at(b, s, e) && t == rest(b, sel_begin(s), e)
}
spec fn cut_text(b: Seq<u8>, s: Selection, x: Seq<char>) -> bool {
    exists|e: int| #[trigger] ends_at(b, s, e) && x == lossy(b.subrange(sel_begin(s), if e <= b.len() { e } else { b.len() as int }))
}
spec fn is_cut_text(bs: HashMap<String, Buffer>, m: Map<Seq<char>, Vec<Selection>>, n: Seq<char>, x: Seq<char>) -> bool {
    m.contains_key(n) && cut_text(text_of(bs, n), m[n]@[0], x)
}
/// one of `m`'s selections reads `x`
spec fn was_cut(bs: HashMap<String, Buffer>, m: Map<Seq<char>, Vec<Selection>>, x: Seq<char>) -> bool {
    exists|n: Seq<char>| is_cut_text(bs, m, n, x)
}
//@ if sels
/// client id has something selected in buffer n of its view
spec fn cut_from(s: CoreState, id: usize, n: Seq<char>) -> bool {
    s.clients.ids()[id].names(vkey(s.clients.ids()[id].view)).contains(n) && text_of(s.buffers, n).len() > 0
}
/// what is selected in buffer n is among `l`
spec fn handed(bs: HashMap<String, Buffer>, m: Map<Seq<char>, Vec<Selection>>, n: Seq<char>, l: Seq<String>) -> bool {
    exists|i: int| 0 <= i < l.len() && is_cut_text(bs, m, n, (#[trigger] l[i])@)
}
//@ end
spec fn named(hs: Set<String>, n: Seq<char>) -> bool { exists|x: String| hs.contains(x) && #[trigger] x@ == n }
spec fn still(c: ClientContext, o: ClientContext, names: Set<Seq<char>>) -> bool {
    &&& c.view == o.view && c.keys() == o.keys()
    &&& forall|k: Seq<char>, n: Seq<char>| #[trigger] o.has(k, n) && !names.contains(n) ==> c.has(k, n) && c.sels(k, n) == o.sels(k, n)
}
//@ if sels
/// the selections in the buffers `ns`, whose texts have changed, are in their new texts
spec fn sels_cut(o: CoreState, c: CoreState, ns: Set<Seq<char>>) -> bool {
    forall|x: usize, k: Seq<char>, n: Seq<char>| o.clients.ids().contains_key(x) && #[trigger] o.clients.ids()[x].has(k, n) ==> c.clients.ids()[x].has(k, n)
        && sel_after(o.clients.ids()[x].sels(k, n), c.clients.ids()[x].sels(k, n), text_of(o.buffers, n), text_of(c.buffers, n), ns.contains(n))
}
spec fn sel_after(l: Sels, m: Sels, t: Seq<u8>, u: Seq<u8>, cut: bool) -> bool {
    cut && list_clamped(l, m, u) || (t == u || t.len() == 0) && m == l
}
//@ end
/// what client `id` had selected in its view is gone from the texts; what others had selected stays
/// where it was, within its text
spec fn selection_deleted(o: CoreState, c: CoreState, id: usize) -> bool {
    let p = o.clients.ids()[id];
    let k = vkey(p.view);
    &&& c.views == o.views && c.cwd == o.cwd
    &&& c.buffers.m().dom() == o.buffers.m().dom()
//@ if looks
    &&& c.clients.seats() == o.clients.seats()
//@ end
    &&& c.clients.ids().dom() == o.clients.ids().dom()
//@ if texts
    &&& forall|n: Seq<char>| #[trigger] p.names(k).contains(n) ==> sel_cut(text_of(o.buffers, n), p.sels(k, n)[0], text_of(c.buffers, n))
//@ end
    &&& forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && !p.names(k).contains(n) ==> c.buffers.m()[n] == o.buffers.m()[n]
//@ if sels
    &&& sels_cut(o, c, p.names(k))
//@ end
    &&& forall|x: usize| #[trigger] o.clients.ids().contains_key(x) ==> still(c.clients.ids()[x], o.clients.ids()[x], p.names(k))
}
proof fn lemma_sel_cut(o: CoreState, c: CoreState, bad: Set<Seq<char>>)
    requires
        o.ok(), c.views == o.views, c.clients == o.clients, c.buffers_ok(),
        c.buffers.m().dom() == o.buffers.m().dom(),
        forall|n: Seq<char>| #[trigger] o.buffers.m().contains_key(n) && !bad.contains(n) ==> text_of(c.buffers, n) == text_of(o.buffers, n)
            || text_of(o.buffers, n).len() == 0 && text_of(c.buffers, n).len() == 1,
    ensures c.parts(none(), bad, none())
{
    assert forall|id: usize| #[trigger] c.clients.ids().contains_key(id) implies c.clients.ids()[id].lists_ok(c.buffers, bad) by {
        let p = o.clients.ids()[id];
        assert forall|k: Seq<char>, m: Seq<char>| #[trigger] p.has(k, m) implies c.buffers.m().contains_key(m)
            && (if bad.contains(m) { loose(p.sels(k, m)) } else { list_in(p.sels(k, m), text_of(c.buffers, m)) }) by {
            assert(o.buffers.m().contains_key(m) && list_in(p.sels(k, m), text_of(o.buffers, m)));
        }
    }
    assert forall|k: Seq<char>| #[trigger] c.views.m().contains_key(k) implies {
        &&& c.views.m()[k].wf() && whole(c.views.m()[k]) && vkey(c.views.m()[k]) == k
        &&& forall|n: Seq<char>| #[trigger] vset(c.views.m()[k]).contains(n) ==> c.buffers.m().contains_key(n)
    } by { assert(o.views.m().contains_key(k)); }
}
//@ if pics
//@ verus
/// everyone who sees buffer n is among `hs`
spec fn sees(s: CoreState, id: usize, n: Seq<char>) -> bool { s.clients.ids().contains_key(id) && vset(s.clients.ids()[id].view).contains(n) }
spec fn seen_by(hs: Set<usize>, s: CoreState, n: Seq<char>) -> bool { forall|id: usize| #[trigger] sees(s, id, n) ==> hs.contains(id) }
//@ end
//@ fn Core::delete_selection #[verifier::rlimit(30)] #[verifier::spinoff_prover]
//@ rewrite let mut deleted = Vec :: new () ; => let mut deleted = Vec :: < String > :: new () ;
//@ rewrite for (bufname , sels) in & ctx . selections [& view_key] . clone () { $$b } => let vx_m = vx_copy (ctx . selections . vx_index (& view_key)) ; for vx_k in vx_m . vx_snapshot () { let bufname = & vx_k ; let sels = vx_m . vx_index (& vx_k) ; $$b }
//@ rewrite state . buffers . get_mut (bufname) . unwrap_or_else (| | panic ! ($$m)) => state . buffers . vx_at (bufname)
//@ rewrite & mut state . buffers . get_mut (bufname) . unwrap () => state . buffers . vx_at (bufname)
    requires old(self).state.ok(), old(self).state.clients.ids().contains_key(client_id)
    ensures
//@ if tell
        final(self).notifier == old(self).notifier,
//@ end
       
        final(self).state.ok(),
        selection_deleted(old(self).state, final(self).state, client_id),
//@ if sels
        forall|i: int| 0 <= i < result@.len() ==> was_cut(old(self).state.buffers, old(self).state.clients.ids()[client_id].selections.m()[vkey(old(self).state.clients.ids()[client_id].view)].m(), (#[trigger] result@[i])@),
//@ end
//@ if sels
        forall|n: Seq<char>| #[trigger] cut_from(old(self).state, client_id, n) ==> handed(old(self).state.buffers, old(self).state.clients.ids()[client_id].selections.m()[vkey(old(self).state.clients.ids()[client_id].view)].m(), n, result@),
//@ end
//@ if pics
        keeps(*old(self), *final(self)),
//@ exit
    proof {
        assert forall|x: usize| #[trigger] self.state.clients.ids().contains_key(x) && old(self).current(x) implies self.current(x) by {
            assert(s0.clients.ids().contains_key(x));
            if !who.contains(x) {
                assert(told_same(old(self).notifier, self.notifier, x));
                let p = s0.clients.ids()[x];
                assert forall|n: Seq<char>| #[trigger] vset(p.view).contains(n) implies !badall.contains(n) by {
                    if badall.contains(n) { assert(seen_by(told, s3, n)); assert(sees(s3, x, n)); }
                }
                assert(still(self.state.clients.ids()[x], p, badall));
                lemma_pic(s0, self.state, x, badall);
                lemma_frame(*old(self), *self, x);
            }
        }
    }
//@ entry
    let ghost mut who = Seq::<usize>::empty();
    let ghost mut told = Set::<usize>::empty();
    let ghost mut badall = none();
    let ghost mut hsall = Set::<String>::empty();
//@ end
//@ entry
    let ghost s0 = self.state;
    let ghost p0 = s0.clients.ids()[client_id];
    let ghost k0 = vkey(p0.view);
    let ghost m0 = p0.selections.m()[k0].m();
    proof {
        broadcast use HashSet::axiom_items;
        assert(s0.views.m().contains_key(k0) && p0.keys().contains(k0));
        assert forall|n: Seq<char>| #[trigger] m0.contains_key(n) implies s0.buffers.m().contains_key(n) && list_in(m0[n]@, text_of(s0.buffers, n)) by { assert(p0.has(k0, n)); }
    }
//@ loop 0 before
    let ghost all = vx_it0@;
//@ loop 0
    invariant
        vx_it0@.len() <= all.len(), vx_it0@ == all.skip(all.len() - vx_it0@.len()),
        lists(all, m0.dom()), vx_m.m() == m0,
        state.clients == s0.clients, state.views == s0.views, state.cwd == s0.cwd, state.buffers_ok(),
        state.buffers.m().dom() == s0.buffers.m().dom(),
        forall|n: Seq<char>| #[trigger] m0.contains_key(n) ==> s0.buffers.m().contains_key(n) && list_in(m0[n]@, text_of(s0.buffers, n)),
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() ==> sel_cut(text_of(s0.buffers, (#[trigger] all[i])@), m0[all[i]@]@[0], text_of(state.buffers, all[i]@))
            && (named(modified_buffers.hs(), all[i]@) || text_of(state.buffers, all[i]@) == text_of(s0.buffers, all[i]@)
//@ if !pics
                || text_of(s0.buffers, all[i]@).len() == 0 && text_of(state.buffers, all[i]@).len() == 1
//@ end
            ),
        forall|i: int| all.len() - vx_it0@.len() <= i < all.len() ==> s0.buffers.m()[(#[trigger] all[i])@] == state.buffers.m()[all[i]@],
        forall|n: Seq<char>| #[trigger] s0.buffers.m().contains_key(n) && !m0.contains_key(n) ==> state.buffers.m()[n] == s0.buffers.m()[n],
        forall|x: String| #[trigger] modified_buffers.hs().contains(x) ==> m0.contains_key(x@),
//@ if sels
        forall|i: int| 0 <= i < all.len() - vx_it0@.len() && text_of(s0.buffers, (#[trigger] all[i])@).len() > 0 ==> handed(s0.buffers, m0, all[i]@, deleted@),
//@ end
        forall|i: int| 0 <= i < deleted@.len() ==> was_cut(s0.buffers, m0, (#[trigger] deleted@[i])@),
    ensures vx_it0@.len() == 0
    decreases vx_it0@.len()
//@ loop 0 entry
    let ghost n0 = all.len() - vx_it0@.len();
    let ghost bb = state.buffers.m();
    let ghost hs0 = modified_buffers.hs();
    proof { if vx_it0@.len() > 0 { assert(vx_it0@[0] == all[n0 as int]); assert(m0.contains_key(all[n0 as int]@)); } }
//@ before for sel in sels
    let ghost b0 = buffer.content.bytes();
    let ghost l0 = sels@;
    let ghost bn = bufname@;
    proof {
        assert(text_of(s0.buffers, bn) == b0 && l0 == m0[bn]@ && list_in(l0, b0));
    }
//@ before let srange
    proof { assert(*sel == l0[0]); }
//@ after let srange
    vx_short(&srange);
    proof {
        assert(ends_at(b0, l0[0], srange.end as int));
    }
//@ if sels
//@ before for sel in sels
    let ghost del0 = deleted@;
//@ before deleted . push (text)
    let ghost del1 = deleted@;
//@ after deleted . push (text)
    proof {
        assert(deleted@[deleted@.len() - 1] == text);
        assert(handed(s0.buffers, m0, bn, deleted@)) by {
            assert(cut_text(b0, l0[0], text@));
            assert(is_cut_text(s0.buffers, m0, bn, deleted@[deleted@.len() - 1]@));
        }
        assert forall|n: Seq<char>| #[trigger] handed(s0.buffers, m0, n, del1) implies handed(s0.buffers, m0, n, deleted@) by {
            let i = choose|i: int| 0 <= i < del1.len() && is_cut_text(s0.buffers, m0, n, (#[trigger] del1[i])@);
            assert(deleted@[i] == del1[i]);
        }
    }
//@ end
//@ after deleted . push (text)
    proof {
        assert(cut_text(b0, l0[0], text@));
        assert(is_cut_text(s0.buffers, m0, bn, text@));
        assert(deleted@[deleted@.len() - 1] == text);
    }
//@ loop 1
    invariant
        vx_it1@.len() <= 1, l0.len() == 1, vx_it1@.len() == 1 ==> *vx_it1@[0] == l0[0],
        buffer.content.wf(), list_in(l0, b0), bn == bufname@, m0.contains_key(bn), text_of(s0.buffers, bn) == b0, l0 == m0[bn]@,
        vx_it1@.len() == 1 ==> buffer.content.bytes() == b0 && modified_buffers.hs() == hs0,
        vx_it1@.len() == 0 ==> if b0.len() == 0 { buffer.content.bytes() == b0 && modified_buffers.hs() == hs0 } else { named(modified_buffers.hs(), bn) },
        vx_it1@.len() == 0 ==> exists|e: int| #[trigger] ends_at(b0, l0[0], e) && buffer.content.bytes() == (if sel_begin(l0[0]) < e && sel_begin(l0[0]) < b0.len() { del_text(b0, sel_begin(l0[0]), e) } else { b0 }),
        forall|x: String| hs0.contains(x) ==> #[trigger] modified_buffers.hs().contains(x),
        forall|x: String| #[trigger] modified_buffers.hs().contains(x) ==> m0.contains_key(x@),
//@ if sels
        vx_it1@.len() == 1 ==> deleted@ == del0,
        vx_it1@.len() == 0 && b0.len() > 0 ==> handed(s0.buffers, m0, bn, deleted@),
        forall|n: Seq<char>| #[trigger] handed(s0.buffers, m0, n, del0) ==> handed(s0.buffers, m0, n, deleted@),
//@ end
        forall|i: int| 0 <= i < deleted@.len() ==> was_cut(s0.buffers, m0, (#[trigger] deleted@[i])@),
    ensures vx_it1@.len() == 0
    decreases vx_it1@.len()
//@ before if buffer . content . is_empty ()
    let ghost b1 = buffer.content.bytes();
    proof {
        lemma_sbytes_nl();
        reveal_strlit("\n");
        assert("\n"@ =~= seq!['\n']);
    }
//@ after if buffer . content . is_empty ()
    proof {
        if b1.len() == 0 { assert(buffer.content.bytes() =~= seq![10u8]); }
        let e = choose|e: int| #[trigger] ends_at(b0, l0[0], e) && b1 == (if sel_begin(l0[0]) < e && sel_begin(l0[0]) < b0.len() { del_text(b0, sel_begin(l0[0]), e) } else { b0 });
        assert(ends_at(b0, l0[0], e) && buffer.content.bytes() == rest(b0, sel_begin(l0[0]), e));
        assert(sel_cut(b0, l0[0], buffer.content.bytes()));
    }
//@ loop 0 end
    proof {
        assert(state.buffers.m().dom() =~= s0.buffers.m().dom());
        assert forall|i: int| 0 <= i < all.len() && i != n0 implies state.buffers.m()[(#[trigger] all[i])@] == bb[all[i]@] by { }
        assert forall|i: int| 0 <= i < n0 && named(hs0, #[trigger] all[i]@) implies named(modified_buffers.hs(), all[i]@) by { }
    }
//@ if sels
//@ loop 0 after
    proof {
        assert forall|n: Seq<char>| #[trigger] cut_from(s0, client_id, n) implies handed(s0.buffers, m0, n, deleted@) by { assert(m0.contains_key(n)); assert(listed(all, n)); }
    }
//@ end
//@ loop 0 after
    proof {
        assert forall|n: Seq<char>| #[trigger] m0.contains_key(n) implies sel_cut(text_of(s0.buffers, n), m0[n]@[0], text_of(state.buffers, n)) by { assert(listed(all, n)); }
        assert forall|n: Seq<char>| #[trigger] s0.buffers.m().contains_key(n) && !named(modified_buffers.hs(), n) implies text_of(state.buffers, n) == text_of(s0.buffers, n)
//@ if !pics
            || text_of(s0.buffers, n).len() == 0 && text_of(state.buffers, n).len() == 1
//@ end
            by { if m0.contains_key(n) { assert(listed(all, n)); } }
    }
//@ before for bufname in & modified_buffers
    let ghost s1 = *state;
    let ghost hs = modified_buffers.hs();
    let ghost mut bad: Set<Seq<char>> = hs.map(|x: String| x@);
    proof {
        assert forall|n: Seq<char>| #[trigger] bad.contains(n) <==> named(hs, n) by {
            if named(hs, n) { let x = choose|x: String| hs.contains(x) && #[trigger] x@ == n; assert(bad.contains((|x: String| x@)(x))); }
        }
        lemma_sel_cut(s0, s1, bad);
    }
//@ if pics
//@ before for bufname in & modified_buffers
    proof { badall = bad; hsall = hs; }
//@ end
//@ loop 2 before
    let ghost all2 = vx_it2@;
    proof {
        broadcast use HashSet::axiom_items;
        assert forall|n: Seq<char>| #[trigger] bad.contains(n) implies exists|i: int| 0 <= i < all2.len() && (#[trigger] all2[i])@ == n by {
            let x = choose|x: String| hs.contains(x) && #[trigger] x@ == n;
            assert(modified_buffers.items().contains(x));
            let i = modified_buffers.items().index_of(x);
            assert(*all2[i] == x);
        }
        assert forall|i: int| 0 <= i < all2.len() implies m0.contains_key((#[trigger] all2[i])@) by {
            assert(modified_buffers.items().contains(modified_buffers.items()[i]));
        }
//@ if pics
        assert forall|i: int| 0 <= i < all2.len() implies badall.contains((#[trigger] all2[i])@) by {
            assert(modified_buffers.items().contains(modified_buffers.items()[i]));
            assert(named(hs, all2[i]@));
        }
//@ end
    }
//@ loop 2
    invariant
        vx_it2@.len() <= all2.len(), vx_it2@ == all2.skip(all2.len() - vx_it2@.len()),
        state.views == s0.views, state.buffers == s1.buffers, state.cwd == s0.cwd,
//@ if looks
        state.clients.seats() == s0.clients.seats(), state.views == s0.views,
//@ end
        state.clients.ids().dom() == s0.clients.ids().dom(),
        state.parts(none(), bad, none()),
        forall|n: Seq<char>| #[trigger] bad.contains(n) ==> exists|i: int| all2.len() - vx_it2@.len() <= i < all2.len() && (#[trigger] all2[i])@ == n,
        forall|i: int| 0 <= i < all2.len() ==> m0.contains_key((#[trigger] all2[i])@),
        forall|n: Seq<char>| #[trigger] m0.contains_key(n) ==> state.buffers.m().contains_key(n),
        forall|x: usize| #[trigger] s0.clients.ids().contains_key(x) ==> still(state.clients.ids()[x], s0.clients.ids()[x], m0.dom()),
//@ if sels
        forall|i: int, j: int| 0 <= i < j < all2.len() ==> (#[trigger] all2[i])@ != (#[trigger] all2[j])@,
        forall|i: int| all2.len() - vx_it2@.len() <= i < all2.len() ==> bad.contains((#[trigger] all2[i])@),
        forall|n: Seq<char>| #[trigger] bad.contains(n) ==> bad0.contains(n),
        forall|x: usize, k: Seq<char>, n: Seq<char>| s0.clients.ids().contains_key(x) && #[trigger] s0.clients.ids()[x].has(k, n) ==> state.clients.ids()[x].has(k, n) && ({
            let (l, m) = (s0.clients.ids()[x].sels(k, n), state.clients.ids()[x].sels(k, n));
            if bad0.contains(n) && !bad.contains(n) { list_clamped(l, m, text_of(s1.buffers, n)) } else { m == l }
        }),
//@ end
//@ if pics
        forall|x: usize| #[trigger] s0.clients.ids().contains_key(x) ==> still(state.clients.ids()[x], s0.clients.ids()[x], badall),
        forall|i: int| 0 <= i < all2.len() ==> badall.contains((#[trigger] all2[i])@),
//@ end
    ensures vx_it2@.len() == 0
    decreases vx_it2@.len()
//@ loop 2 entry
    let ghost n2 = all2.len() - vx_it2@.len();
    let ghost sp = *state;
    proof { if vx_it2@.len() > 0 { assert(vx_it2@[0] == all2[n2 as int]); } }
//@ loop 2 end
    proof {
        let n = all2[n2 as int]@;
        lemma_clamped(sp, *state, n, none(), bad, none());
        bad = bad.remove(n);
//@ if pics
        assert forall|x: usize| #[trigger] s0.clients.ids().contains_key(x) implies still(state.clients.ids()[x], s0.clients.ids()[x], badall) by {
            assert(sp.clients.ids().contains_key(x));
            let (p, q, r) = (s0.clients.ids()[x], sp.clients.ids()[x], state.clients.ids()[x]);
            assert(ctx_clamped(q, r, n, text_of(sp.buffers, n)));
            assert forall|k: Seq<char>, m: Seq<char>| #[trigger] p.has(k, m) && !badall.contains(m) implies r.has(k, m) && r.sels(k, m) == p.sels(k, m) by {
                assert(q.has(k, m) && q.sels(k, m) == p.sels(k, m));
                assert(map_clamped(q.selections.m()[k], r.selections.m()[k], n, text_of(sp.buffers, n)));
            }
        }
//@ end
        assert forall|x: usize| #[trigger] s0.clients.ids().contains_key(x) implies still(state.clients.ids()[x], s0.clients.ids()[x], m0.dom()) by {
            assert(sp.clients.ids().contains_key(x));
            let (p, q, r) = (s0.clients.ids()[x], sp.clients.ids()[x], state.clients.ids()[x]);
            assert(ctx_clamped(q, r, n, text_of(sp.buffers, n)));
            assert forall|k: Seq<char>, m: Seq<char>| #[trigger] p.has(k, m) && !m0.dom().contains(m) implies r.has(k, m) && r.sels(k, m) == p.sels(k, m) by {
                assert(q.has(k, m) && q.sels(k, m) == p.sels(k, m));
                assert(map_clamped(q.selections.m()[k], r.selections.m()[k], n, text_of(sp.buffers, n)));
            }
        }
    }
//@ before let mut to_notify
    let ghost s3 = self.state;
//@ loop 3 before
    let ghost all3 = vx_it3@;
//@ if pics
//@ loop 3 before
    proof {
        broadcast use HashSet::axiom_items;
        assert forall|n: Seq<char>| #[trigger] badall.contains(n) implies exists|i: int| 0 <= i < all3.len() && (#[trigger] all3[i])@ == n by {
            let x = choose|x: String| hsall.contains(x) && #[trigger] x@ == n;
            assert(all3.contains(x));
            let i = all3.index_of(x);
            assert(all3[i] == x);
        }
        assert forall|i: int| 0 <= i < all3.len() implies s3.buffers.m().contains_key((#[trigger] all3[i])@) by { assert(all3.contains(all3[i])); assert(m0.contains_key(all3[i]@)); }
    }
//@ end
//@ loop 3
    invariant
        self.state == s3,
        forall|x: usize| #[trigger] to_notify.hs().contains(x) ==> s3.clients.ids().contains_key(x),
//@ if pics
        vx_it3@.len() <= all3.len(), vx_it3@ == all3.skip(all3.len() - vx_it3@.len()), self.notifier == old(self).notifier,
        forall|i: int| 0 <= i < all3.len() - vx_it3@.len() ==> seen_by(to_notify.hs(), s3, (#[trigger] all3[i])@),
        forall|i: int| 0 <= i < all3.len() ==> s3.buffers.m().contains_key((#[trigger] all3[i])@),
    ensures vx_it3@.len() == 0
//@ end
//@ if !pics
    ensures true
//@ end
    decreases vx_it3@.len()
//@ if pics
//@ loop 3 entry
    let ghost n3 = all3.len() - vx_it3@.len();
    let ghost hs3 = to_notify.hs();
    proof { if vx_it3@.len() > 0 { assert(vx_it3@[0] == all3[n3 as int]); } }
//@ loop 3 end
    proof {
        let n = all3[n3 as int]@;
        assert forall|id: usize| #[trigger] sees(s3, id, n) implies to_notify.hs().contains(id) by { }
        assert forall|i: int| 0 <= i < n3 implies seen_by(to_notify.hs(), s3, (#[trigger] all3[i])@) by {
            assert(seen_by(hs3, s3, all3[i]@));
            assert forall|id: usize| #[trigger] sees(s3, id, all3[i]@) implies to_notify.hs().contains(id) by { assert(hs3.contains(id)); }
        }
    }
//@ loop 3 after
    proof {
        told = to_notify.hs();
        assert forall|n: Seq<char>| #[trigger] badall.contains(n) implies seen_by(told, s3, n) by {
            let i = choose|i: int| 0 <= i < all3.len() && (#[trigger] all3[i])@ == n;
            assert(seen_by(told, s3, all3[i]@));
        }
    }
//@ loop 4 after
    proof {
        broadcast use HashSet::axiom_items;
        who = vx_acc4@;
        assert(vx_acc4@ =~= all4);
        assert forall|x: usize| told.contains(x) implies #[trigger] who.contains(x) by { assert(to_notify.items().contains(x)); }
    }
//@ end
//@ loop 4 before
    let ghost all4 = vx_it4@;
    proof {
        broadcast use HashSet::axiom_items;
        assert forall|i: int| 0 <= i < all4.len() implies s3.clients.ids().contains_key(#[trigger] all4[i]) by { assert(to_notify.items().contains(all4[i])); }
    }
//@ loop 4
    invariant
        vx_it4@.len() <= all4.len(), vx_it4@ == all4.skip(all4.len() - vx_it4@.len()),
        forall|i: int| 0 <= i < all4.len() ==> s3.clients.ids().contains_key(#[trigger] all4[i]),
        forall|i: int| 0 <= i < vx_acc4@.len() ==> s3.clients.ids().contains_key(#[trigger] vx_acc4@[i]),
//@ if pics
        vx_acc4@ == all4.take(all4.len() - vx_it4@.len()),
//@ end
    ensures vx_it4@.len() == 0
    decreases vx_it4@.len()
//@ loop 4 entry
    proof { if vx_it4@.len() > 0 { assert(vx_it4@[0] == all4[all4.len() - vx_it4@.len()]); } }
//@ if sels
//@ before for bufname in & modified_buffers
    let ghost bad0 = bad;
//@ loop 2 before
    proof {
        broadcast use HashSet::axiom_names;
        assert forall|i: int, j: int| 0 <= i < j < all2.len() implies (#[trigger] all2[i])@ != (#[trigger] all2[j])@ by { assert(modified_buffers.items()[i]@ != modified_buffers.items()[j]@); }
        assert forall|i: int| 0 <= i < all2.len() implies bad.contains((#[trigger] all2[i])@) by {
            broadcast use HashSet::axiom_items;
            assert(modified_buffers.items().contains(modified_buffers.items()[i]));
            assert(named(hs, all2[i]@));
        }
    }
//@ loop 2 end
    proof {
        let n1 = all2[n2 as int]@;
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| s0.clients.ids().contains_key(x) && #[trigger] s0.clients.ids()[x].has(k, n) implies state.clients.ids()[x].has(k, n) && ({
            let (l, m) = (s0.clients.ids()[x].sels(k, n), state.clients.ids()[x].sels(k, n));
            if bad0.contains(n) && !bad.contains(n) { list_clamped(l, m, text_of(s1.buffers, n)) } else { m == l }
        }) by {
            assert(sp.clients.ids().contains_key(x) && sp.clients.ids()[x].has(k, n));
            assert(ctx_clamped(sp.clients.ids()[x], state.clients.ids()[x], n1, text_of(sp.buffers, n1)));
            assert(map_clamped(sp.clients.ids()[x].selections.m()[k], state.clients.ids()[x].selections.m()[k], n1, text_of(sp.buffers, n1)));
        }
    }
//@ loop 2 after
    proof {
        assert(bad =~= none());
        assert forall|x: usize, k: Seq<char>, n: Seq<char>| s0.clients.ids().contains_key(x) && #[trigger] s0.clients.ids()[x].has(k, n) implies state.clients.ids()[x].has(k, n)
            && sel_after(s0.clients.ids()[x].sels(k, n), state.clients.ids()[x].sels(k, n), text_of(s0.buffers, n), text_of(state.buffers, n), m0.dom().contains(n)) by {
            assert(s0.clients.ids()[x].lists_ok(s0.buffers, none()));
            assert(s0.buffers.m().contains_key(n));
            if bad0.contains(n) { let y = choose|y: String| hs.contains(y) && #[trigger] y@ == n; assert(m0.contains_key(y@)); }
            else { assert(!named(hs, n)); }
        }
        assert(sels_cut(s0, *state, m0.dom()));
    }
//@ end
//@ loop 2 after
    proof {
        assert(bad =~= none());
        assert(selection_deleted(s0, *state, client_id));
    }
//@ verus
fn vx_range_of(b: &Buffer, sel: &Selection) -> (r: VxOffsets)
    requires b.content.wf(), sel_end(*sel) <= b.content.bytes().len()
    ensures ends_at(b.content.bytes(), *sel, r.end as int), r.start == sel_begin(*sel), r.start <= r.end
{ b.selection_range(sel) }
#[verifier::external_body]
fn vx_cwd() -> PathBuf { unimplemented!() }
#[verifier::external_body]
fn vx_no_ids<V>() -> (r: StackMap<usize, V>)
    ensures r.ids() == Map::<usize, V>::empty()
{ unimplemented!() }
#[verifier::external_body]
fn vx_no_names<V>() -> (r: StackMap<String, V>)
    ensures r.m() == Map::<Seq<char>, V>::empty()
{ unimplemented!() }
//@ fn Core::new
//@ rewrite current_dir () . unwrap_or_else ($$x) => vx_cwd ()
//@ rewrite Arc :: new (Mutex :: new ($$x)) => $$x
//@ rewrite clients : StackMap :: new () => clients : vx_no_ids ()
//@ rewrite views : StackMap :: new () => views : vx_no_names ()
    ensures result.state.ok(), result.state.clients.ids().dom() == Set::<usize>::empty(), result.state.buffers.m().dom() == none(), result.state.views.m().dom() == none(),
