//! Messages: what of a message goes to the root cell and what to cells of its own.
use tycho_types::cell::{CellSliceParts, ExactSize, Load, Size, Store};
use tycho_types::models::*;
use tycho_types::num::*;
use tycho_types::prelude::*;

use crate::tlb::{D, G, X, damage};
use crate::util::*;

trait Body: ExactSize {
    fn body(&self) -> (bool, String, Vec<Cell>);
}
impl Body for CellSlice<'_> {
    fn body(&self) -> (bool, String, Vec<Cell>) {
        (self.cell().is_exotic(), slice_bits(self), (0..self.size_refs()).map(|i| self.get_reference_cloned(i).unwrap()).collect())
    }
}
impl Body for CellSliceParts {
    fn body(&self) -> (bool, String, Vec<Cell>) {
        self.0.apply_allow_exotic(&self.1).body()
    }
}
/// What a body can say about a header with an initial state.
trait Info: D + Store + ExactSize + Clone {
    fn dst(&mut self) -> Option<&mut IntAddr>;
}
impl Info for MsgInfo {
    fn dst(&mut self) -> Option<&mut IntAddr> {
        Some(match self {
            MsgInfo::Int(i) => &mut i.dst,
            MsgInfo::ExtIn(i) => &mut i.dst,
            MsgInfo::ExtOut(i) => &mut i.src,
        })
    }
}
impl Info for RelaxedMsgInfo {
    fn dst(&mut self) -> Option<&mut IntAddr> {
        match self {
            RelaxedMsgInfo::Int(i) => Some(&mut i.dst),
            RelaxedMsgInfo::ExtOut(i) => i.src.as_mut(),
        }
    }
}

#[derive(Default)]
pub struct M {
    it: Interner,
}
const LAYOUTS: [&str; 5] = ["-", "00", "01", "10", "11"];
fn layout(s: &str) -> Option<MessageLayout> {
    (s != "-").then(|| MessageLayout { init_to_cell: &s[..1] == "1", body_to_cell: &s[1..] == "1" })
}
fn name(l: &MessageLayout) -> String {
    format!("{}{}", l.init_to_cell as u8, l.body_to_cell as u8)
}
fn size(s: Size) -> Json {
    json!([s.bits, s.refs])
}
/// Everything the code says of a message.
fn show<I: Info, B: Body>(m: &mut M, mut msg: BaseMessage<I, B>) -> Json
where
    BaseMessage<I, B>: Store,
{
    let mut x = X { out: Vec::new(), it: &mut m.it };
    msg.info.d(&mut x);
    match &msg.init {
        None => x.s("0"),
        Some(i) => {
            x.s("1");
            i.d(&mut x);
        }
    }
    let parts = x.out;
    let (exo, bits, refs) = msg.body.body();
    let refs: Vec<usize> = refs.iter().map(|c| m.it.add(c)).collect();
    let (si, sb) = (msg.info.exact_size(), msg.body.exact_size());
    let (auto, total) = MessageLayout::compute(si, msg.init.as_ref(), sb);
    let mut sizes = vec![size(si), size(msg.init.as_ref().map_or(Size::ZERO, |i| i.exact_size())), size(sb), size(total)];
    sizes.extend(LAYOUTS[1..].iter().map(|l| size(layout(l).unwrap().compute_full_size(si, msg.init.as_ref(), sb))));
    let auto2 = BaseMessage::<I, B>::compute_layout(&msg.info, msg.init.as_ref(), &msg.body);
    if name(&auto) != name(&auto2) {
        return json!(["differs", "compute_layout"]);
    }
    let mut cells = Vec::new();
    for l in LAYOUTS {
        msg.layout = layout(l);
        cells.push(match CellBuilder::build_from(&msg) {
            Ok(c) => m.it.add(&c),
            Err(_) => 0,
        });
    }
    // The header where it just fits and where it does not.
    let mut tight = Vec::new();
    let real = {
        let mut b = CellBuilder::new();
        msg.info.store_into(&mut b, Cell::empty_context()).ok().map(|()| (b.size_bits(), b.size_refs()))
    };
    if let Some((bits, refs)) = real {
        for more in [0, 1] {
            if bits < more {
                continue;
            }
            let mut b = CellBuilder::new();
            b.store_zeros(1023 - bits + more).unwrap();
            for _ in refs..4 {
                b.store_reference(Cell::default()).unwrap();
            }
            tight.push(msg.info.store_into(&mut b, Cell::empty_context()).is_ok());
        }
    }
    json!(["ok", parts, [exo as u8, bits, refs], name(&auto), sizes, cells, tight])
}
/// A message whose parts are near the limits.
fn make<I: Info>(g: &mut G) -> (I, Option<StateInit>, CellSliceParts) {
    g.small = g.r.flip();
    let mut info = I::g(g);
    let init: Option<StateInit> = g.r.chance(2, 3).then(|| {
        let small = std::mem::replace(&mut g.small, true);
        let mut i = StateInit::g(g);
        g.small = small;
        if g.r.flip() {
            // As many references as there can be.
            i.code = Some(g.plain());
            i.data = Some(g.plain());
        }
        i
    });
    let bits = |x: &dyn Store| {
        let mut b = CellBuilder::new();
        x.store_into(&mut b, Cell::empty_context()).map_or(0, |()| b.size_bits() as i32)
    };
    let state = init.as_ref().map_or(0, |i| bits(i));
    let extra = 2 + init.is_some() as i32;
    let near = [1023, 1023, 1023, 1024, 1022, 1025, 1020][g.r.below(7)];
    if g.r.chance(1, 4) {
        // The header alone, or with the state, is at the limit.
        let with = if g.r.flip() { state } else { 0 };
        let old = bits(&info);
        if let Some(a) = info.dst() {
            let before = a.bit_len() as i32;
            *a = IntAddr::Var(VarAddr { anycast: None, address_len: Uint9::new(0), workchain: 5, address: Vec::new() });
            let need = near - extra - with - (old - before) - a.bit_len() as i32;
            let need = need.clamp(0, 511);
            let v = g.r.bits(need as usize);
            *a = IntAddr::Var(VarAddr { anycast: None, address_len: Uint9::new(need as u16), workchain: 5, address: bits_to_bytes(&v) });
        }
    }
    let n = match g.r.below(6) {
        0 => 0,
        1 => g.r.below(100) as i32,
        2 => g.r.below(1024) as i32,
        3 => near - extra - bits(&info),
        _ => near - extra - bits(&info) - state,
    }
    .clamp(0, 1023) as usize;
    let k = *g.r.pick(&[0, 0, 0, 1, 2, 3, 3, 4, 4]);
    let skip = if g.r.chance(1, 3) { g.r.below(1024 - n) } else { 0 };
    let drop = if g.r.chance(1, 3) { g.r.below(5 - k) } else { 0 };
    let mut b = CellBuilder::new();
    store_bits(&mut b, &g.r.bits(skip + n)).unwrap();
    for _ in 0..drop + k {
        b.store_reference(g.any()).unwrap();
    }
    let c = b.build().unwrap();
    let mut s = c.as_slice().unwrap();
    s.skip_first(skip as u16, drop as u8).unwrap();
    (info, init, (s.range(), c.clone()))
}
fn enc<I: Info>(m: &mut M, own: bool, seed: u64) -> Json
where
    BaseMessage<I, CellSliceParts>: Store,
    for<'a> BaseMessage<I, CellSlice<'a>>: Store,
{
    let (info, init, body) = make::<I>(&mut G::new(Rng::new(seed)));
    if own {
        show(m, BaseMessage { info, init, body, layout: None })
    } else {
        show(m, BaseMessage { info, init, body: body.0.apply(&body.1).unwrap(), layout: None })
    }
}
fn dec1<'a, I: Info, B: Body>(m: &mut M, c: &'a Cell) -> Json
where
    BaseMessage<I, B>: Store + Load<'a>,
{
    let mut s = match c.as_slice() {
        Ok(s) => s,
        Err(e) => return err(&e),
    };
    match BaseMessage::<I, B>::load_from(&mut s) {
        Err(e) => err(&e),
        Ok(msg) => {
            let (l, left) = (msg.layout.as_ref().map_or("-".to_owned(), name), json!([s.size_bits(), s.size_refs()]));
            json!(["ok", l, left, show(m, msg)])
        }
    }
}
fn dec<I: Info>(m: &mut M, own: bool, c: &Cell) -> Json
where
    for<'a> BaseMessage<I, CellSliceParts>: Store + Load<'a>,
    for<'a> BaseMessage<I, CellSlice<'a>>: Store + Load<'a>,
{
    if own { dec1::<I, CellSliceParts>(m, c) } else { dec1::<I, CellSlice<'_>>(m, c) }
}
impl Machine for M {
    fn interner(&mut self) -> &mut Interner {
        &mut self.it
    }
    fn exec(&mut self, op: &Json) -> Json {
        let (own, relaxed) = (jb(&op["own"]), js(&op["t"]) == "RelaxedMsgInfo");
        match js(&op["op"]) {
            "enc" => {
                let seed = js(&op["seed"]).parse().unwrap();
                if relaxed { enc::<RelaxedMsgInfo>(self, own, seed) } else { enc::<MsgInfo>(self, own, seed) }
            }
            "dec" => {
                let c = self.it.get(ju(&op["cell"]));
                if relaxed { dec::<RelaxedMsgInfo>(self, own, &c) } else { dec::<MsgInfo>(self, own, &c) }
            }
            x => json!(["tool", x]),
        }
    }
}
pub fn replay(cfg: &Json, ops: &[Json]) -> Trace {
    replay_with(&mut M::default(), cfg, ops)
}
pub fn record(seed: u64, _sel: &str, len: usize) -> Trace {
    let mut r = Rng::new(seed);
    let mut m = M::default();
    let mut ev = Vec::new();
    let mut go = |m: &mut M, mut op: Json| {
        let res = m.run(&op);
        op["r"] = res.clone();
        ev.push(op);
        res
    };
    for _ in 0..len {
        let t = if r.chance(2, 3) { "MsgInfo" } else { "RelaxedMsgInfo" };
        let e = go(&mut m, json!({"op": "enc", "t": t, "own": r.flip(), "seed": r.next().to_string()}));
        let Some(made) = e[5].as_array().map(|a| a.iter().map(ju).filter(|k| *k > 0).collect::<Vec<_>>()) else { continue };
        if made.is_empty() {
            continue;
        }
        for _ in 0..2 {
            let id = *r.pick(&made);
            go(&mut m, json!({"op": "dec", "t": if r.chance(1, 4) { "RelaxedMsgInfo" } else { t }, "own": r.flip(), "cell": id}));
        }
        let c = m.it.get(*r.pick(&made));
        let c = damage(&mut r, &c, 1);
        let id = m.it.add(&c);
        go(&mut m, json!({"op": "dec", "t": t, "own": r.flip(), "cell": id}));
    }
    Trace { cfg: json!({"none": 0}), cells: std::mem::take(&mut m.it.table), ev }
}
