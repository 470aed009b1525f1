scenarios! {
    d01_mont_2 => arith::d2::montgomery();
    d01_mont_3 => arith::d3::montgomery();
    d01_mont_5 => arith::d5::montgomery();
    d01_reduce_2 => arith::d2::reduce();
    d01_reduce_3 => arith::d3::reduce();
    d01_reduce_5 => arith::d5::reduce();
    d02_p2r_2 => arith::d2::power2round();
    d02_p2r_3 => arith::d3::power2round();
    d02_p2r_5 => arith::d5::power2round();
    d02_dec_2 => arith::d2::decompose();
    d02_dec_3 => arith::d3::decompose();
    d02_dec_5 => arith::d5::decompose();
    d02_hint_2 => arith::d2::hint();
    d02_hint_3 => arith::d3::hint();
    d02_hint_5 => arith::d5::hint();
    d02_parts_2 => arith::d2::hint_parts();
    d02_parts_3 => arith::d3::hint_parts();
    d02_parts_5 => arith::d5::hint_parts();
    d02_poly_2 => arith::d2::polys();
    d02_poly_3 => arith::d3::polys();
    d02_poly_5 => arith::d5::polys();
    d02_normv_2 => arith::d2::norm_vec();
    d02_hints_2 => arith::d2::poly_hints();
    d02_vhints_2 => arith::d2::vec_hints();
    d02_norm_2 => arith::d2::norm();
    d02_normv_3 => arith::d3::norm_vec();
    d02_hints_3 => arith::d3::poly_hints();
    d02_vhints_3 => arith::d3::vec_hints();
    d02_norm_3 => arith::d3::norm();
    d02_normv_5 => arith::d5::norm_vec();
    d02_hints_5 => arith::d5::poly_hints();
    d02_vhints_5 => arith::d5::vec_hints();
    d02_norm_5 => arith::d5::norm();
    d03_poly_2 => codec::d2::polys();
    d03_keys_2 => codec::d2::keys();
    d03_resp_2 => codec::d2::response();
    d03_hints_2 => codec::d2::hints();
    d04_verdict_2 => codec::d2::verdict();
    d04_count_2 => codec::d2::counters();
    d03_poly_3 => codec::d3::polys();
    d03_keys_3 => codec::d3::keys();
    d03_resp_3 => codec::d3::response();
    d03_hints_3 => codec::d3::hints();
    d04_verdict_3 => codec::d3::verdict();
    d04_count_3 => codec::d3::counters();
    d03_poly_5 => codec::d5::polys();
    d03_keys_5 => codec::d5::keys();
    d03_resp_5 => codec::d5::response();
    d03_hints_5 => codec::d5::hints();
    d04_verdict_5 => codec::d5::verdict();
    d04_count_5 => codec::d5::counters();
}
