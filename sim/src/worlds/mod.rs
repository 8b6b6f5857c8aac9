use crate::run::Def;
mod arrays;
mod centroid;
mod common;
mod dd;
mod envelope;
mod funs;
mod lines;
mod geoms;
mod list;
mod matrix;
mod octagon;
mod progress;
mod pure;
mod ray;
mod segments;
mod snap;
mod seq;
mod shuffle;

pub fn all() -> &'static [Def] {
    static ALL: std::sync::OnceLock<Vec<Def>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        vec![
            ray::DEF, envelope::DEF, octagon::DEF, matrix::DEF, list::DEF, seq::DEF, arrays::DEF, shuffle::DEF, lines::DEF, geoms::DEF, centroid::DEF, dd::DEF,
            segments::DEF, snap::DEF, progress::def(), pure::def(),
        ]
    })
}
