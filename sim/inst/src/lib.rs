//! The generic entry points of the library, instantiated here so that they carry the same
//! instrumentation as the rest of it (see ../wrap.sh).
use std::collections::HashMap;
use templito::func_man::*;
use templito::temp_man::*;
use templito::*;

pub struct Dyn<'a>(pub &'a mut dyn TempManager);
impl TempManager for Dyn<'_> {
    fn insert_t(&mut self, k: String, t: TreeTemplate) {
        self.0.insert_t(k, t)
    }
    fn get_t(&mut self, k: &str) -> anyhow::Result<&TreeTemplate> {
        self.0.get_t(k)
    }
}
pub fn run(t: &TreeTemplate, p: &[&dyn TParam], tm: &mut dyn TempManager, fm: &BasicFuncs) -> anyhow::Result<String> {
    t.run(p, &mut Dyn(tm), fm)
}
pub fn run_exp(t: &TreeTemplate, p: &[&dyn TParam], tm: &mut dyn TempManager, fm: &BasicFuncs) -> anyhow::Result<(String, HashMap<String, TData>)> {
    t.run_exp(p, &mut Dyn(tm), fm)
}
pub fn front_matter(t: &TreeTemplate, fm: &BasicFuncs) -> HashMap<String, TData> {
    t.front_matter(fm)
}
