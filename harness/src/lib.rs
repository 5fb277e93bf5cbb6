#[macro_use]
pub mod nd;
macro_rules! modules {
    ($($m:ident),* $(,)?) => {
        $( pub mod $m; )*
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v = Vec::new();
            $( v.extend_from_slice($m::TABLE); )*
            v
        }
    };
}
modules!(h_cubic, h_circ, h_cyl, h_agent, h_inter, h_pos, h_list, h_time, h_text, h_hist, h_stat, h_data, h_dir, h_prog, h_fault);
