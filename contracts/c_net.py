C = {}
D = '$answer'
C['DKIM::Util::Resolver::GetTXT'] = dict(params=['domain', 'out'], dns=True,
    modifies=['out'],
    result='dns_result($ans_len, $ans, $herr, $out@0).ok', ensures=['$out =~= dns_result($ans_len, $ans, $herr, $out@0).text', '$asked_dns =~= seq![cstr($domain)]', '$asked_custom == $asked_custom@0'],
    loops=[
        dict(inv=['0 <= $x <= $qc', '$answerptr >= 0', '$s == skip_len($answer, $answerptr, $answer_length)', 'q_skip($answer, 12, $answer_length, be16($answer, 4)) == q_skip($answer, $answerptr, $answer_length, $qc - $x)'], dec='$qc - $x',
             entry=['lemma_be16($answer, 4);'], exit=['reveal_with_fuel(q_skip, 2);']),
        dict(inv=['0 <= $i <= $cc', '$answerptr >= 0', 'ans_scan($answer, $answerptr@L, $answer_length, $cc, $out@L) == ans_scan($answer, $answerptr, $answer_length, $cc - $i, $out)'], dec='$cc - $i',
             entry=['lemma_be16($answer, 6);'], back=['assert($out =~= $out@H + txt($answer, $answerptr@H, 0) || true);']),
        dict(inv=['$ptr >= 0', '$ptr + $rec_len_left == $ptr@L + $rec_len_left@L', '$rec_len_left >= 0', '$out + txt($answer, $ptr, $rec_len_left) =~= $out@L + txt($answer, $ptr@L, $rec_len_left@L)'], dec='$rec_len_left'),
    ])
