// ---------------------------------------------------------------- queries (C05)
/// r designates the items of s, in order
pub open spec fn lists<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *#[trigger] r[i] == s[i] }
pub open spec fn dim_names_are(r: Seq<VStr>, s: Seq<Rc<Dimension>>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i])@ == (*s[i]).nm() }
pub open spec fn attr_names_are(r: Seq<VStr>, s: Seq<Attribute>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r[i])@ == s[i].name@ }
impl DataSet {
    pub open spec fn var_attr_at(self, i: int, j: int, n: Seq<char>, m: Seq<char>) -> bool { self.var_at(i, n) && self.vars@[i].attr_at(j, m) }
    pub open spec fn hva(self, n: Seq<char>, m: Seq<char>) -> bool { exists|i: int| 0 <= i < self.vars@.len() && (#[trigger] self.vars@[i]).name@ == n && self.vars@[i].attr_has(m) }
}
