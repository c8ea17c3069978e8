use crate::explore::Body;
mod corpus;
mod p_conf;
mod p_fgd;
mod p_geo;
mod p_live;
mod p_odd;
mod p_text;
pub mod p_tree;
mod text;
mod p_wad;

pub struct Spec {
    pub body: Body,
    pub level: &'static str,
    pub budget: (u32, u32),
    pub rule: &'static str,
    pub bounds: (&'static str, &'static str),
    pub assumptions: &'static [&'static str],
    pub workers: u64,
}
pub fn ids() -> Vec<&'static str> {
    vec!["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22","C23","C24","C25","C26","C27","C28","C29","C30","C31","C32","C33","C34","C35","C36"]
}
pub fn spec(id: &str) -> Option<Spec> {
    let t = text::about(id);
    let level = if ["C23", "C24", "C28"].contains(&id) { "fault_enumeration" } else { "model_checking" };
    let s = |body: Body| Spec { body, level, budget: (u32::MAX, u32::MAX), rule: t.rule, bounds: (t.quick, t.thorough), assumptions: t.assumptions, workers: 8 };
    Some(match id {
        "C01" => Spec { budget: (1, 2), ..s(p_text::c01) },
        "C02" => s(p_text::c02),
        "C03" => s(p_text::c03),
        "C04" => s(p_text::c04),
        "C05" => s(p_text::c05),
        "C06" => s(p_tree::c06),
        "C07" => s(p_tree::c07),
        "C08" => s(p_tree::c08),
        "C09" => s(p_tree::c09),
        "C10" => s(p_tree::c10),
        "C11" => s(p_geo::c11),
        "C12" => s(p_geo::c12),
        "C13" => s(p_geo::c13),
        "C14" => s(p_geo::c14),
        "C15" => s(p_geo::c15),
        "C16" => s(p_geo::c16),
        "C17" => s(p_geo::c17),
        "C18" => s(p_geo::c18),
        "C19" => s(p_tree::c19),
        "C20" => s(p_tree::c20),
        "C21" => s(p_wad::c21),
        "C22" => Spec { workers: 3, ..s(p_wad::c22) },
        "C23" => s(p_wad::c23),
        "C24" => s(p_wad::c24),
        "C25" => s(p_wad::c25),
        "C26" => s(p_wad::c26),
        "C27" => s(p_fgd::c27),
        "C28" => s(p_fgd::c28),
        "C29" => s(p_fgd::c29),
        "C30" => s(p_fgd::c30),
        "C31" => s(p_odd::c31),
        "C32" => s(p_odd::c32),
        "C33" => s(p_conf::c33),
        "C34" => s(p_conf::c34),
        "C35" => s(p_live::c35),
        "C36" => s(p_live::c36),
        _ => return None,
    })
}
