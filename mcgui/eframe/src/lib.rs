//! A window without a screen. Its user does what the lines of standard input say:
//!
//!     text "..."    selects everything in the first text box and pastes the text over it
//!     add "..."     types the text at its end
//!     click "..."   presses the button of this name
//!     wait          looks on for a while
//!
//! After the window opened and after each line, what it shows goes to standard error as a line of JSON.
pub use egui;
use egui::{Event, Key, Modifiers, PointerButton, Pos2, RawInput, Rect, Shape};
use serde_json::{json, Value};
use std::io::BufRead;

#[derive(Debug)]
pub enum Error {}
impl std::fmt::Display for Error {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Default)]
pub struct NativeOptions {
    pub viewport: egui::ViewportBuilder,
}
pub struct Frame(());
pub struct CreationContext {
    pub egui_ctx: egui::Context,
}
pub trait App {
    fn update(&mut self, ctx: &egui::Context, frame: &mut Frame);
}
pub type AppCreator = Box<dyn FnOnce(&CreationContext) -> Box<dyn App>>;

pub fn run_simple_native(_name: &str, _options: NativeOptions, update: impl FnMut(&egui::Context, &mut Frame) + 'static) -> Result<()> {
    run(egui::Context::default(), update)
}
pub fn run_native(_name: &str, _options: NativeOptions, create: AppCreator) -> Result<()> {
    let egui_ctx = egui::Context::default();
    let mut app = create(&CreationContext { egui_ctx: egui_ctx.clone() });
    run(egui_ctx, move |c, f| app.update(c, f))
}

struct Window<F> {
    ctx: egui::Context,
    update: F,
    time: f64,
    shown: Vec<(Rect, Shape)>,
}

fn flat(clip: Rect, s: Shape, to: &mut Vec<(Rect, Shape)>) {
    match s {
        Shape::Vec(v) => v.into_iter().for_each(|s| flat(clip, s, to)),
        Shape::Noop => {}
        s => to.push((clip, s)),
    }
}

impl<F: FnMut(&egui::Context, &mut Frame)> Window<F> {
    fn frame(&mut self, events: Vec<Event>) {
        self.time += 0.1;
        let input = RawInput {
            screen_rect: Some(Rect::from_min_size(Pos2::ZERO, egui::vec2(3000.0, 3000.0))),
            time: Some(self.time),
            focused: true,
            events,
            ..Default::default()
        };
        let update = &mut self.update;
        let out = self.ctx.run(input, |c| update(c, &mut Frame(())));
        self.shown.clear();
        for s in out.shapes {
            flat(s.clip_rect, s.shape, &mut self.shown);
        }
    }
    fn press(&mut self, pos: Pos2) {
        let button = |pressed| Event::PointerButton { pos, button: PointerButton::Primary, pressed, modifiers: Modifiers::NONE };
        self.frame(vec![Event::PointerMoved(pos)]);
        self.frame(vec![button(true)]);
        self.frame(vec![button(false)]);
    }
    fn key(&mut self, key: Key, modifiers: Modifiers) {
        for pressed in [true, false] {
            self.frame(vec![Event::Key { key, physical_key: None, pressed, repeat: false, modifiers }]);
        }
    }
    /// the middle of a text that is shown
    fn find(&self, text: &str) -> Option<Pos2> {
        self.shown.iter().find_map(|(_, s)| match s {
            Shape::Text(t) if t.galley.text() == text => Some(t.visual_bounding_rect().center()),
            _ => None,
        })
    }
    fn show(&self) {
        let rgb = |c: egui::Color32| json!([c.r(), c.g(), c.b()]);
        let at = |p: Pos2| json!([p.x, p.y]);
        let all: Vec<Value> = self
            .shown
            .iter()
            .map(|(clip, s)| {
                let mut v = match s {
                    Shape::Circle(c) => json!({"circle": at(c.center), "radius": c.radius, "width": c.stroke.width, "color": rgb(c.stroke.color)}),
                    Shape::LineSegment { points: [p, q], stroke } => json!({"line": at(*p), "to": at(*q), "width": stroke.width, "color": rgb(stroke.color)}),
                    Shape::Path(s) if s.points.len() == 2 => {
                        json!({"line": at(s.points[0]), "to": at(s.points[1]), "width": s.stroke.width, "color": rgb(s.stroke.color)})
                    }
                    Shape::Text(t) => {
                        let own = t.galley.job.sections.first().map_or(egui::Color32::PLACEHOLDER, |s| s.format.color);
                        let own = if own == egui::Color32::PLACEHOLDER { t.fallback_color } else { own };
                        json!({"text": t.galley.text(), "at": at(t.pos + t.galley.size() / 2.0), "color": rgb(t.override_text_color.unwrap_or(own))})
                    }
                    Shape::Rect(_) => json!({"rect": 0}),
                    _ => json!({"other": format!("{s:?}")}),
                };
                v["whole"] = json!(clip.contains_rect(s.visual_bounding_rect()));
                v
            })
            .collect();
        eprintln!("{}", json!({"shown": all}));
    }
}

fn run(ctx: egui::Context, update: impl FnMut(&egui::Context, &mut Frame)) -> Result<()> {
    let mut w = Window { ctx, update, time: 0.0, shown: vec![] };
    let away = Pos2::new(2990.0, 2990.0);
    w.frame(vec![]);
    w.frame(vec![]);
    // the text box keeps its place: that of the first text of several lines
    let text_box = w.shown.iter().find_map(|(_, s)| match s {
        Shape::Text(t) if t.galley.text().contains('\n') => Some(t.pos + egui::vec2(3.0, 3.0)),
        _ => None,
    });
    w.show();
    let all = Modifiers { ctrl: true, command: true, ..Default::default() };
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("a line");
        let (what, arg) = line.split_once(' ').unwrap_or((&line, "\"\""));
        let arg: String = serde_json::from_str(arg).expect("a text");
        // so that two presses are no double click
        w.time += 3.0;
        match what {
            "text" => {
                w.press(text_box.expect("a text box"));
                w.key(Key::A, all);
                w.frame(vec![if arg.is_empty() {
                    Event::Key { key: Key::Delete, physical_key: None, pressed: true, repeat: false, modifiers: Modifiers::NONE }
                } else {
                    Event::Paste(arg)
                }]);
            }
            "add" => {
                w.press(text_box.expect("a text box"));
                w.key(Key::End, all);
                w.frame(vec![if arg == "\n" {
                    Event::Key { key: Key::Enter, physical_key: None, pressed: true, repeat: false, modifiers: Modifiers::NONE }
                } else {
                    Event::Text(arg)
                }]);
            }
            "click" => match w.find(&arg) {
                Some(p) => w.press(p),
                None => eprintln!("{}", json!({"missing": arg})),
            },
            _ => (0..20).for_each(|_| w.frame(vec![])),
        }
        for e in [vec![Event::PointerMoved(away)], vec![], vec![]] {
            w.frame(e);
        }
        w.show();
    }
    Ok(())
}
