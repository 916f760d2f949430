C = {}
C['DKIM::Util::StringFormat'] = dict(
    params=['fmt'], vararg=True, throws='$vafail', exc='std::bad_alloc', result='cstr($va)')
