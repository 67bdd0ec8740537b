//! What the visualizer is shown: conversions to rerun's types and the observer that logs every step.
use crate::{json::*, kinds::*, obj, probs::*, vars::*, Rec};
use factrs::{
    containers::Values,
    optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptObserver, Optimizer},
    rerun::RerunObserver,
};
use rerun::{
    components::{Color, Position2D, Position3D, RotationQuat, Vector2D, Vector3D},
    log::{Chunk, LogMsg},
    Arrows2D, Arrows3D, Points2D, Points3D, RecordingStream, RecordingStreamBuilder, Rotation3D, Transform3D, Vec2D, Vec3D,
};

fn fv(x: &[f32]) -> J {
    J::Arr(x.iter().map(|v| r(*v as f64)).collect())
}
fn color(c: &Color) -> J {
    J::Arr(c.to_array().iter().map(|x| J::Int(*x as i64)).collect())
}
fn points(p: Vec<J>) -> J {
    obj! {"p": J::Arr(p), "v": J::Arr(vec![]), "o": J::Arr(vec![]), "c": J::Arr(vec![])}
}
fn arrows(v: Vec<J>, o: Vec<J>, c: Vec<J>) -> J {
    obj! {"p": J::Arr(vec![]), "v": J::Arr(v), "o": J::Arr(o), "c": J::Arr(c)}
}
/// what each of the visualizer's objects holds
trait Shown {
    fn shown(&self) -> J;
}
impl Shown for Vec2D {
    fn shown(&self) -> J {
        points(vec![fv(&self.0)])
    }
}
impl Shown for Vec3D {
    fn shown(&self) -> J {
        points(vec![fv(&self.0)])
    }
}
impl Shown for Points2D {
    fn shown(&self) -> J {
        points(self.positions.iter().map(|p| fv(&p.0 .0)).collect())
    }
}
impl Shown for Points3D {
    fn shown(&self) -> J {
        points(self.positions.iter().map(|p| fv(&p.0 .0)).collect())
    }
}
impl Shown for Arrows2D {
    fn shown(&self) -> J {
        arrows(
            self.vectors.iter().map(|p| fv(&p.0 .0)).collect(),
            self.origins.iter().flatten().map(|p| fv(&p.0 .0)).collect(),
            self.colors.iter().flatten().map(color).collect(),
        )
    }
}
impl Shown for Arrows3D {
    fn shown(&self) -> J {
        arrows(
            self.vectors.iter().map(|p| fv(&p.0 .0)).collect(),
            self.origins.iter().flatten().map(|p| fv(&p.0 .0)).collect(),
            self.colors.iter().flatten().map(color).collect(),
        )
    }
}
fn quat(q: &RotationQuat) -> J {
    fv(&q.0.xyzw())
}
impl Shown for Rotation3D {
    fn shown(&self) -> J {
        match self {
            Rotation3D::Quaternion(q) => obj! {"q": quat(q)},
            Rotation3D::AxisAngle(a) => {
                let (u, h) = (a.0.axis.0, a.0.angle.radians() / 2.0);
                let n = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]).sqrt();
                let k = if n > 0.0 { h.sin() / n } else { 0.0 };
                obj! {"q": fv(&[k * u[0], k * u[1], k * u[2], h.cos()])}
            }
        }
    }
}
impl Shown for Transform3D {
    fn shown(&self) -> J {
        let rot = match (&self.quaternion, &self.rotation_axis_angle) {
            (Some(q), None) => Rotation3D::Quaternion(*q).shown().get("q").clone(),
            (None, Some(a)) => Rotation3D::AxisAngle(*a).shown().get("q").clone(),
            _ => J::Arr(vec![]),
        };
        let t = self.translation.map_or(J::Arr(vec![]), |t| fv(&t.0 .0));
        obj! {"q": rot, "t": t, "rest": J::Bool(self.scale.is_some() || self.mat3x3.is_some())}
    }
}

/// one variable through every conversion it has, by reference and by value
fn conversions(kind: &str, raw: &[f64], rec: &Rec) {
    macro_rules! go {
        ($t:ty: $($to:ident),*) => {{
            let x = <$t as Kind>::make(raw);
            $(
                let by_ref: $to = (&x).into();
                rec.ev(obj! {"e": s("one"), "to": s(stringify!($to)), "is": by_ref.shown()});
                let by_val: $to = x.clone().into();
                rec.ev(obj! {"e": s("one"), "to": s(stringify!($to)), "is": by_val.shown()});
            )*
        }};
    }
    match kind {
        "V2" => go!(VectorVar2: Vec2D, Points2D),
        "V3" => go!(VectorVar3: Vec3D, Points3D),
        "SO2" => go!(SO2: Arrows2D),
        "SE2" => go!(SE2: Arrows2D, Points2D, Vec2D),
        "SO3" => go!(SO3: Rotation3D, Arrows3D),
        "SE3" => go!(SE3: Transform3D, Arrows3D, Vec3D, Points3D),
        o => panic!("HARNESS: nothing shows a {o}"),
    }
}
pub fn convert(scn: &J, rec: &Rec) {
    for x in scn.get("vars").arr() {
        conversions(x.get("kind").str(), &x.get("raw").fv(), rec);
    }
}
/// many of one type at once
pub fn gather(scn: &J, rec: &Rec) {
    macro_rules! go {
        ($t:ty: $($to:ident),*) => {{
            let all: Vec<$t> = scn.get("vars").arr().iter().map(|x| <$t as Kind>::make(&x.get("raw").fv())).collect();
            $(
                let a: $to = all.iter().collect();
                rec.ev(obj! {"e": s("all"), "to": s(stringify!($to)), "is": a.shown()});
            )*
        }};
    }
    match scn.get("kind").str() {
        "V2" => go!(VectorVar2: Points2D),
        "V3" => go!(VectorVar3: Points3D),
        "SE2" => go!(SE2: Arrows2D, Points2D),
        "SE3" => go!(SE3: Arrows3D, Points3D),
        o => panic!("HARNESS: nothing gathers {o}"),
    }
}

fn observer(rec: &RecordingStream, j: &J) -> Box<dyn OptObserver<Input = Values>> {
    let topic = j.get("topic").str();
    macro_rules! table {
        ($($k:literal $to:literal => $t:ty, $o:ty;)*) => {
            match (j.get("kind").str(), j.get("to").str()) {
                $(($k, $to) => Box::new(RerunObserver::<$t, $o>::new(rec.clone(), topic)),)*
                o => panic!("HARNESS: no observer {o:?}"),
            }
        };
    }
    table! {
        "V2" "Points2D" => VectorVar2, Points2D;
        "V3" "Points3D" => VectorVar3, Points3D;
        "SE2" "Arrows2D" => SE2, Arrows2D;
        "SE2" "Points2D" => SE2, Points2D;
        "SE3" "Arrows3D" => SE3, Arrows3D;
        "SE3" "Points3D" => SE3, Points3D;
    }
}
/// the rows of the log, entity by entity in the order they were written
fn logged(msgs: Vec<LogMsg>, rec: &Rec) {
    let mut rows: Vec<(rerun::log::RowId, J)> = vec![];
    for m in msgs {
        let LogMsg::ArrowMsg(_, a) = m else { continue };
        let c = Chunk::from_arrow_msg(&a).expect("HARNESS: chunk");
        let ids: Vec<_> = c.row_ids().collect();
        for (i, id) in ids.iter().enumerate() {
            let times = J::Arr(
                c.timelines()
                    .iter()
                    .filter(|(t, _)| t.name().as_str() == "stable_time")
                    .map(|(_, t)| r(t.times().nth(i).map_or(f64::NAN, |x| x.as_i64() as f64)))
                    .collect(),
            );
            macro_rules! batch { ($t:ty, $f:expr) => { c.component_batch::<$t>(i).and_then(|b| b.ok()).unwrap_or_default().iter().map($f).collect::<Vec<J>>() }; }
            let (v2, v3) = (batch!(Vector2D, |p| fv(&p.0 .0)), batch!(Vector3D, |p| fv(&p.0 .0)));
            let (p2, p3) = (batch!(Position2D, |p| fv(&p.0 .0)), batch!(Position3D, |p| fv(&p.0 .0)));
            let col = batch!(Color, color);
            let kind = c.component_names().any(|n| n.as_str().contains("Vector"));
            let (v, p) = ([v2, v3].concat(), [p2, p3].concat());
            let is = if kind { arrows(v, p, col) } else { points(p) };
            rows.push((*id, obj! {"e": s("row"), "topic": s(c.entity_path().to_string().trim_start_matches('/')), "ns": times, "is": is}));
        }
    }
    rows.sort_by_key(|x| x.0);
    for (_, x) in rows {
        rec.ev(x);
    }
}
/// the values of every step, as an observer of our own sees them
struct Witness(Rec, J);
impl OptObserver for Witness {
    type Input = Values;
    fn on_step(&self, v: &Values, t: f64) {
        self.0.ev(obj! {"e": s("step"), "at": r(t), "vals": read_all(v, &self.1)});
    }
}
pub fn observe(scn: &J, rec: &Rec) {
    let (stream, log) = RecordingStreamBuilder::new("factrs").memory().expect("HARNESS: stream");
    let obs: Vec<_> = scn.get("obs").arr().iter().map(|o| observer(&stream, o)).collect();
    for st in scn.get("steps").arr() {
        let v = values(st.get("vars"));
        let t = st.get("at").f();
        rec.ev(obj! {"e": s("step"), "at": r(t), "vals": read_all(&v, st.get("vars"))});
        for o in &obs {
            o.on_step(&v, t);
        }
    }
    logged(log.take(), rec);
    rec.ev(obj! {"e": s("end")});
}
pub fn optimize(scn: &J, rec: &Rec) {
    let (stream, log) = RecordingStreamBuilder::new("factrs").memory().expect("HARNESS: stream");
    let vars = scn.get("vars");
    macro_rules! go {
        ($o:ty) => {{
            let mut o = <$o>::new(graph(scn.get("facs")));
            *crate::optim::Real::base(&mut o) = crate::optim::params(scn.get("p"));
            o.observers.add(Witness(rec.clone(), vars.clone()));
            for x in scn.get("obs").arr() {
                struct Boxed(Box<dyn OptObserver<Input = Values>>);
                impl OptObserver for Boxed {
                    type Input = Values;
                    fn on_step(&self, v: &Values, t: f64) {
                        self.0.on_step(v, t)
                    }
                }
                o.observers.add(Boxed(observer(&stream, x)));
            }
            let _ = o.optimize(values(vars));
        }};
    }
    match scn.get("opt").str() {
        "gn" => go!(GaussNewton),
        _ => go!(LevenMarquardt),
    }
    logged(log.take(), rec);
    rec.ev(obj! {"e": s("end")});
}
