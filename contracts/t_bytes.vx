@bcast
@fn <i64 as From<Offset>>::from
@spec
    ensures r == offset.val(),
