//! A page without a browser: elements by id, canvases and their two-dimensional contexts. A context follows the HTML
//! canvas specification for what dandy-draw uses (current path, styles, line width, text alignment) and records what
//! becomes visible.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
pub use wasm_bindgen;

/// what has become visible
#[derive(Clone, Debug, PartialEq)]
pub enum Painted {
    Line { from: (f64, f64), to: (f64, f64), width: f64, color: [u8; 3] },
    Circle { center: (f64, f64), radius: f64, width: f64, color: [u8; 3] },
    Text { at: (f64, f64), text: String, color: [u8; 3], align: String, baseline: String },
    Rect { at: (f64, f64), size: (f64, f64), color: [u8; 3] },
    Other(String),
}

/// a value from JavaScript, as far as styles and errors need it
#[derive(Clone, Debug)]
pub struct JsValue(String);
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(s)
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue(s.into())
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue(s.clone())
    }
}

#[derive(Clone, Copy, Debug)]
enum Piece {
    Line((f64, f64), (f64, f64)),
    Arc((f64, f64), f64, f64, f64),
    Ellipse(f64, f64),
}

#[derive(Debug)]
struct State {
    painted: Vec<Painted>,
    path: Vec<Piece>,
    /// where the subpath began, and the current point
    sub: Option<((f64, f64), (f64, f64))>,
    stroke: [u8; 3],
    fill: [u8; 3],
    width: f64,
    align: String,
    baseline: String,
    saved: Vec<Styles>,
}

/// what save and restore keep
type Styles = ([u8; 3], [u8; 3], f64, String, String);

#[derive(Clone, Debug)]
pub struct CanvasRenderingContext2d(Rc<RefCell<State>>);

fn color(s: &str) -> Option<[u8; 3]> {
    let s = s.trim().to_ascii_lowercase();
    if let Some(h) = s.strip_prefix('#') {
        let b = |i: usize| u8::from_str_radix(h.get(i..i + 2)?, 16).ok();
        return if h.len() == 6 { Some([b(0)?, b(2)?, b(4)?]) } else { None };
    }
    let inner = s.strip_prefix("rgb(")?.strip_suffix(')')?;
    let parts: Vec<&str> = if inner.contains(',') { inner.split(',').map(str::trim).collect() } else { inner.split_whitespace().collect() };
    let v: Vec<u8> = parts.iter().map(|p| p.parse().ok()).collect::<Option<_>>()?;
    v.try_into().ok()
}

impl CanvasRenderingContext2d {
    #[allow(clippy::new_without_default)]
    pub fn fresh() -> Self {
        Self(Rc::new(RefCell::new(State {
            painted: vec![],
            path: vec![],
            sub: None,
            stroke: [0; 3],
            fill: [0; 3],
            width: 1.0,
            align: "start".into(),
            baseline: "alphabetic".into(),
            saved: vec![],
        })))
    }
    /// what has been painted since the last time
    pub fn take(&self) -> Vec<Painted> {
        std::mem::take(&mut self.0.borrow_mut().painted)
    }
    pub fn set_text_align(&self, s: &str) {
        if ["start", "end", "left", "right", "center"].contains(&s) {
            self.0.borrow_mut().align = s.into();
        }
    }
    pub fn set_text_baseline(&self, s: &str) {
        if ["top", "hanging", "middle", "alphabetic", "ideographic", "bottom"].contains(&s) {
            self.0.borrow_mut().baseline = s.into();
        }
    }
    pub fn set_font(&self, _: &str) {}
    pub fn set_line_width(&self, w: f64) {
        if w > 0.0 && w.is_finite() {
            self.0.borrow_mut().width = w;
        }
    }
    pub fn set_stroke_style(&self, s: &JsValue) {
        self.set_stroke_style_str(&s.0)
    }
    pub fn set_stroke_style_str(&self, s: &str) {
        if let Some(c) = color(s) {
            self.0.borrow_mut().stroke = c;
        }
    }
    pub fn set_fill_style(&self, s: &JsValue) {
        self.set_fill_style_str(&s.0)
    }
    pub fn set_fill_style_str(&self, s: &str) {
        if let Some(c) = color(s) {
            self.0.borrow_mut().fill = c;
        }
    }
    pub fn begin_path(&self) {
        let mut s = self.0.borrow_mut();
        s.path.clear();
        s.sub = None;
    }
    pub fn close_path(&self) {
        let mut s = self.0.borrow_mut();
        if let Some((start, now)) = s.sub {
            if start != now {
                s.path.push(Piece::Line(now, start));
            }
            s.sub = Some((start, start));
        }
    }
    pub fn move_to(&self, x: f64, y: f64) {
        self.0.borrow_mut().sub = Some(((x, y), (x, y)));
    }
    pub fn line_to(&self, x: f64, y: f64) {
        let mut s = self.0.borrow_mut();
        match s.sub {
            Some((start, now)) => {
                s.path.push(Piece::Line(now, (x, y)));
                s.sub = Some((start, (x, y)));
            }
            None => s.sub = Some(((x, y), (x, y))),
        }
    }
    pub fn arc(&self, x: f64, y: f64, r: f64, a: f64, b: f64) -> Result<(), JsValue> {
        if r < 0.0 {
            return Err("IndexSizeError".into());
        }
        let mut s = self.0.borrow_mut();
        let (first, last) = ((x + r * a.cos(), y + r * a.sin()), (x + r * b.cos(), y + r * b.sin()));
        let start = match s.sub {
            Some((start, now)) => {
                s.path.push(Piece::Line(now, first));
                start
            }
            None => first,
        };
        s.path.push(Piece::Arc((x, y), r, a, b));
        // a full circle ends where it begins
        let last = if (last.0 - first.0).abs() + (last.1 - first.1).abs() < 1e-6 * r.max(1.0) { first } else { last };
        s.sub = Some((start, last));
        Ok(())
    }
    pub fn rect(&self, x: f64, y: f64, w: f64, h: f64) {
        self.move_to(x, y);
        self.line_to(x + w, y);
        self.line_to(x + w, y + h);
        self.line_to(x, y + h);
        self.close_path();
    }
    pub fn stroke(&self) {
        let mut s = self.0.borrow_mut();
        let (width, color) = (s.width, s.stroke);
        let new: Vec<Painted> = s
            .path
            .iter()
            .map(|p| match *p {
                Piece::Line(from, to) => Painted::Line { from, to, width, color },
                Piece::Arc(center, radius, a, b) if (b - a).abs() > 2.0 * std::f64::consts::PI - 1e-6 => Painted::Circle { center, radius, width, color },
                p => Painted::Other(format!("{p:?}")),
            })
            .collect();
        // the same line twice in one stroke, as when a path of one line is closed, looks like one line
        for (i, p) in new.iter().enumerate() {
            let again = new[..i].iter().any(|q| match (p, q) {
                (Painted::Line { from, to, .. }, Painted::Line { from: f, to: t, .. }) => (from, to) == (f, t) || (from, to) == (t, f),
                _ => false,
            });
            if !again {
                s.painted.push(p.clone());
            }
        }
    }
    pub fn fill(&self) {
        let mut s = self.0.borrow_mut();
        let color = s.fill;
        let corners: Vec<(f64, f64)> =
            s.path.iter().filter_map(|p| if let Piece::Line(from, _) = p { Some(*from) } else { None }).collect();
        let what = match (s.path.len(), <[(f64, f64); 4]>::try_from(corners)) {
            (0, _) => return,
            (4, Ok([a, b, c, d])) => {
                let ((ax, ay), (bx, by), (cx, cy), (dx, dy)) = (a, b, c, d);
                if (ay, bx, cy, dx) == (by, cx, dy, ax) || (ax, by, cx, dy) == (bx, cy, dx, ay) {
                    Painted::Rect { at: (ax, ay), size: (cx - ax, cy - ay), color }
                } else {
                    Painted::Other(format!("filled {:?}", s.path))
                }
            }
            _ => Painted::Other(format!("filled {:?}", s.path)),
        };
        s.painted.push(what);
    }
    pub fn ellipse(&self, x: f64, y: f64, rx: f64, ry: f64, turn: f64, a: f64, b: f64) -> Result<(), JsValue> {
        if rx == ry {
            return self.arc(x, y, rx, a + turn, b + turn);
        }
        if rx < 0.0 || ry < 0.0 {
            return Err("IndexSizeError".into());
        }
        self.0.borrow_mut().path.push(Piece::Ellipse(rx, ry));
        Ok(())
    }
    pub fn save(&self) {
        let mut s = self.0.borrow_mut();
        let now = (s.stroke, s.fill, s.width, s.align.clone(), s.baseline.clone());
        s.saved.push(now);
    }
    pub fn restore(&self) {
        let mut s = self.0.borrow_mut();
        if let Some((stroke, fill, width, align, baseline)) = s.saved.pop() {
            (s.stroke, s.fill, s.width) = (stroke, fill, width);
            (s.align, s.baseline) = (align, baseline);
        }
    }
    pub fn fill_text(&self, text: &str, x: f64, y: f64) -> Result<(), JsValue> {
        let mut s = self.0.borrow_mut();
        let t = Painted::Text { at: (x, y), text: text.into(), color: s.fill, align: s.align.clone(), baseline: s.baseline.clone() };
        s.painted.push(t);
        Ok(())
    }
    pub fn fill_rect(&self, x: f64, y: f64, w: f64, h: f64) {
        let mut s = self.0.borrow_mut();
        let r = Painted::Rect { at: (x, y), size: (w, h), color: s.fill };
        s.painted.push(r);
    }
}

#[derive(Clone, Debug)]
pub struct HtmlCanvasElement(CanvasRenderingContext2d);
impl HtmlCanvasElement {
    pub fn fresh() -> Self {
        Self(CanvasRenderingContext2d::fresh())
    }
    pub fn context(&self) -> CanvasRenderingContext2d {
        self.0.clone()
    }
    pub fn get_context(&self, kind: &str) -> Result<Option<Object>, JsValue> {
        Ok((kind == "2d").then(|| Object(self.0.clone())))
    }
}

/// what `get_context` gives
#[derive(Clone, Debug)]
pub struct Object(CanvasRenderingContext2d);
pub trait FromObject: Sized {
    fn from(o: Object) -> Result<Self, Object>;
}
impl FromObject for CanvasRenderingContext2d {
    fn from(o: Object) -> Result<Self, Object> {
        Ok(o.0)
    }
}
impl Object {
    pub fn dyn_into<T: FromObject>(self) -> Result<T, Object> {
        T::from(self)
    }
}

/// an element of the page: a canvas or something else
#[derive(Clone, Debug)]
pub enum Element {
    Canvas(HtmlCanvasElement),
    Other,
}
pub trait FromElement: Sized {
    fn from(e: Element) -> Result<Self, Element>;
}
impl FromElement for HtmlCanvasElement {
    fn from(e: Element) -> Result<Self, Element> {
        match e {
            Element::Canvas(c) => Ok(c),
            e => Err(e),
        }
    }
}
impl Element {
    pub fn dyn_into<T: FromElement>(self) -> Result<T, Element> {
        T::from(self)
    }
}

thread_local! {
    static PAGE: RefCell<HashMap<String, Element>> = RefCell::default();
}
/// puts an element on the page
pub fn put(id: &str, e: Element) {
    PAGE.with(|p| p.borrow_mut().insert(id.into(), e));
}
#[derive(Clone, Debug)]
pub struct Window(());
#[derive(Clone, Debug)]
pub struct Document(());
pub fn window() -> Option<Window> {
    Some(Window(()))
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(Document(()))
    }
}
impl Document {
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        PAGE.with(|p| p.borrow().get(id).cloned())
    }
}
