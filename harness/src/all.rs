#[path = "util.rs"]
pub mod util;
#[path = "mesh.rs"]
pub mod mesh;
#[path = "basis.rs"]
pub mod basis;
use basis::*;
#[path = "domain.rs"]
pub mod domain;
use domain::*;
#[path = "galerkin.rs"]
pub mod galerkin;
use galerkin::*;
#[path = "linalg.rs"]
pub mod linalg;
use linalg::*;
#[path = "fields.rs"]
pub mod fields;
use fields::*;
#[path = "space.rs"]
pub mod space;
use mesh::*;
use space::*;

pub const CHECKS: &[(&str, fn())] = &[
    ("M01", m01),
    ("M01.chain", m01_chain),
    ("M01.batch", m01_batch),
    ("M01.large", m01_large),
    ("M01.huge", m01_huge),
    ("M01.narrow", m01_narrow),
    ("M01.vast", m01_vast),
    ("M02", m02),
    ("M02.chain", m02_chain),
    ("M02.batch", m02_batch),
    ("M02.large", m02_large),
    ("M02.huge", m02_huge),
    ("M02.narrow", m02_narrow),
    ("M02.vast", m02_vast),
    ("M02.border", m05),
    ("M03", m03),
    ("M03.chain", m03_chain),
    ("M03.batch", m03_batch),
    ("M03.large", m03_large),
    ("M03.huge", m03_huge),
    ("M03.narrow", m03_narrow),
    ("M03.vast", m03_vast),
    ("M03.inherit", m03_inherit),
    ("M03.loc", m03_loc),
    ("M04", m04),
    ("M04.pair", m04_pair),
    ("M04.chain", m04_chain),
    ("M04.batch", m04_batch),
    ("M04.large", m04_large),
    ("M04.huge", m04_huge),
    ("M04.narrow", m04_narrow),
    ("M04.vast", m04_vast),
    ("M05", m06),
    ("M05.index", m06_index),
    ("M05.list", m06_list),
    ("M05.limit", m07),
    ("M05.two", m07_two),
    ("M05.large", m05_large),
    ("M05.whole", m07_whole),
    ("M06", m08),
    ("M06.cells", m08_cells),
    ("M06.global", m08_global),
    ("M06.large", m06_large),
    ("M06.deep", m06_deep),
    ("M07", m09),
    ("M07.bad", m09_bad),
    ("M07.export", m09_export),
    ("P01", p01),
    ("P01.elems", p01_elems),
    ("P01.large", p01_large),
    ("P02", p02),
    ("P02.filter", p02_filter),
    ("P02.valid", p02_valid),
    ("P02.large", p02_large),
    ("D01", d01),
    ("D01.large", d01_large),
    ("D01.narrow", d01_narrow),
    ("D01.vast", d01_vast),
    ("D03.vast", d01_vast),
    ("D02", d02),
    ("D02.orders", d02_orders),
    ("D02.large", d02_large),
    ("D02.narrow", d02_narrow),
    ("D03", d03),
    ("D03.chain", d03_chain),
    ("D03.large", d03_large),
    ("D03.narrow", d03_narrow),
    ("D05", d05),
    ("D05.large", d05_large),
    ("D04", d04),
    ("D04.match", d04_match),
    ("D04.perm", d04_perm),
    ("B01", b01),
    ("B01.ends", b01_ends),
    ("B02", b02),
    ("B02.deriv", b02_deriv),
    ("B02.narrow", b02_narrow),
    ("B02.mapping", b02_mapping),
    ("B03", b03),
    ("B03.large", b03_large),
    ("B03.points", b03_points),
    ("I01", i01),
    ("I01.narrow", i01_narrow),
    ("I02", i02),
    ("I02.narrow", i02_narrow),
    ("I03", i03),
    ("I03.result", i03_result),
    ("I04", i04),
    ("I04.scale", i04_scale),
    ("I05", i05),
    ("I05.default", i05_default),
    ("G01", g01),
    ("G01.chain", g01_chain),
    ("G01.orders", g01_orders),
    ("G01.schedule", g01_schedule),
    ("G01.large", g01_large),
    ("G01.refuse", g01_refuse),
    ("L01", l01),
    ("L01.consume", l01_consume),
    ("L01.large", l01_large),
    ("L01.refuse", l01_refuse),
    ("L02", l02),
    ("L02.large", l02_large),
    ("L02.pair", l02_pair),
    ("L03", l03),
    ("L03.full", l03_full),
    ("L03.path", l03_path),
    ("L03.refuse", l03_refuse),
    ("L03.general", l03_general),
    ("L04", l04),
    ("L04.large", l04_large),
    ("L05.st", l05),
    ("F01", f01),
    ("F01.linear", f01_linear),
    ("F01.large", f01_large),
    ("F02", f02),
    ("F02.large", f02_large),
    ("F02.select", f02_select),
    ("F02.path", f02_path),
    ("F03", f03),
    ("S01", s01),
    ("S01.three", s01_three),
    ("S01.measure", s01_measure),
    ("S02", s02),
    ("S02.inverse", s02_inverse),
];
