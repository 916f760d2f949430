C = {}
C['ValidateSubDomain'] = dict(
    params=['s'], result='label_ok($s@0)',
    entry_hints=['lemma_alnum_set();'])
C['DKIM::Util::ValidateDomain'] = dict(
    params=['d'], result='domain_ok($d@0, 0)',
    loops=[dict(inv=['0 <= $lpos <= $d.len()', 'domain_ok($d, $lpos) == domain_ok($d, 0)'], head=['lemma_idx_from($d, 46u8, $lpos);'], dec='$d.len() - $lpos')])
