// ---------------------------------------------------------------- C01: the naming rule
/// printable ASCII but the slash: letters, digits and the listed punctuation
pub open spec fn rest_ok(c: char) -> bool { !ascii(c) || (0x20 <= c as u32 && c as u32 <= 0x7e && c != '/') }
pub open spec fn first_ok(c: char) -> bool { !ascii(c) || ascii_alnum(c) || c == '_' }
pub open spec fn valid_name(s: Seq<char>) -> bool {
    s.len() > 0 && utf8(s).len() <= 256 && first_ok(s[0]) && forall|i: int| 1 <= i < s.len() ==> rest_ok(#[trigger] s[i])
}

// ---------------------------------------------------------------- C06: types
impl DataType {
    pub open spec fn code(self) -> int { match self { DataType::I8 => 1, DataType::U8 => 2, DataType::I16 => 3, DataType::I32 => 4, DataType::F32 => 5, DataType::F64 => 6 } }
    pub open spec fn cname(self) -> Seq<char> { match self { DataType::I8 => seq!['N', 'C', '_', 'B', 'Y', 'T', 'E'], DataType::U8 => seq!['N', 'C', '_', 'C', 'H', 'A', 'R'], DataType::I16 => seq!['N', 'C', '_', 'S', 'H', 'O', 'R', 'T'], DataType::I32 => seq!['N', 'C', '_', 'I', 'N', 'T'], DataType::F32 => seq!['N', 'C', '_', 'F', 'L', 'O', 'A', 'T'], DataType::F64 => seq!['N', 'C', '_', 'D', 'O', 'U', 'B', 'L', 'E'] } }
    pub open spec fn esize(self) -> int { match self { DataType::I8 => 1, DataType::U8 => 1, DataType::I16 => 2, DataType::I32 => 4, DataType::F32 => 4, DataType::F64 => 8 } }
}
impl Version { pub open spec fn code(self) -> int { match self { Version::Classic => 1, Version::Offset64Bit => 2 } } }
impl DataVector {
    pub open spec fn dtype(self) -> DataType { match self { DataVector::I8(_) => DataType::I8, DataVector::U8(_) => DataType::U8, DataVector::I16(_) => DataType::I16,
        DataVector::I32(_) => DataType::I32, DataVector::F32(_) => DataType::F32, DataVector::F64(_) => DataType::F64 } }
    pub open spec fn vlen(self) -> nat { match self { DataVector::I8(d) => d@.len(), DataVector::U8(d) => d@.len(), DataVector::I16(d) => d@.len(),
        DataVector::I32(d) => d@.len(), DataVector::F32(d) => d@.len(), DataVector::F64(d) => d@.len() } }
    pub open spec fn is_zero(self) -> bool { match self { DataVector::I8(d) => forall|i: int| 0 <= i < d@.len() ==> d@[i] == 0, DataVector::U8(d) => forall|i: int| 0 <= i < d@.len() ==> d@[i] == 0,
        DataVector::I16(d) => forall|i: int| 0 <= i < d@.len() ==> d@[i] == 0, DataVector::I32(d) => forall|i: int| 0 <= i < d@.len() ==> d@[i] == 0, _ => true } }
}
