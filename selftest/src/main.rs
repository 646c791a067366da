use selftest::*;
use std::io::BufRead;
fn main() { for l in std::io::stdin().lock().lines() { let l = l.unwrap(); let p: Vec<Vec<i32>> = l.split(';').map(|x| x.split_whitespace().map(|y| y.parse().unwrap()).collect()).collect(); let n = p[2][0] as usize;
print!("{:?};", skip_sel(&p[0], &p[1], n));
print!("{:?};", skip_sel2(&p[0], &p[1], n));
print!("{:?};", skip_ref(&p[0], &p[1], n));
print!("{:?};", take_sel(&p[0], &p[1], n));
print!("{:?};", take_map(&p[0], &p[1], n));
print!("{:?};", rev_sel(&p[0], &p[1], n));
print!("{:?};", rev_map(&p[0], &p[1], n));
print!("{:?};", rev_for(&p[0], &p[1], n));
print!("{:?};", chain1(&p[0], &p[1], n));
print!("{:?};", chain2(&p[0], &p[1], n));
print!("{:?};", chain3(&p[0], &p[1], n));
print!("{:?};", zip1(&p[0], &p[1], n));
print!("{:?};", zip_sel(&p[0], &p[1], n));
print!("{:?};", zip_idx(&p[0], &p[1], n));
print!("{:?};", flat1(&p[0], &p[1], n));
print!("{:?};", flat2(&p[0], &p[1], n));
print!("{:?};", take_while1(&p[0], &p[1], n));
print!("{:?};", take_while_c(&p[0], &p[1], n));
print!("{:?};", skip_while1(&p[0], &p[1], n));
print!("{:?};", map_while1(&p[0], &p[1], n));
print!("{:?};", step1(&p[0], &p[1], n));
print!("{:?};", step2(&p[0], &p[1], n));
print!("{:?};", chunks1(&p[0], &p[1], n));
print!("{:?};", chunks2(&p[0], &p[1], n));
print!("{:?};", windows1(&p[0], &p[1], n));
print!("{:?};", nth1(&p[0], &p[1], n));
print!("{:?};", nth2(&p[0], &p[1], n));
print!("{:?};", last1(&p[0], &p[1], n));
print!("{:?};", peek1(&p[0], &p[1], n));
print!("{:?};", retain1(&p[0], &p[1], n));
print!("{:?};", incl(&p[0], &p[1], n));
print!("{:?};", incl_rev(&p[0], &p[1], n));
print!("{:?};", while1(&p[0], &p[1], n));
print!("{:?};", loop1(&p[0], &p[1], n));
print!("{:?};", loop_early(&p[0], &p[1], n));
print!("{:?};", pos1(&p[0], &p[1], n));
print!("{:?};", rpos(&p[0], &p[1], n));
print!("{:?};", find_rev(&p[0], &p[1], n));
print!("{:?};", fold1(&p[0], &p[1], n));
print!("{:?};", fold_vec(&p[0], &p[1], n));
print!("{:?};", sum1(&p[0], &p[1], n));
print!("{:?};", prod1(&p[0], &p[1], n));
print!("{:?};", minmax(&p[0], &p[1], n));
print!("{:?};", min_by_key1(&p[0], &p[1], n));
print!("{:?};", max_by_key1(&p[0], &p[1], n));
print!("{:?};", all_any(&p[0], &p[1], n));
print!("{:?};", partition1(&p[0], &p[1], n));
print!("{:?};", unzip1(&p[0], &p[1], n));
print!("{:?};", drain1(&p[0], &p[1], n));
print!("{:?};", split_off1(&p[0], &p[1], n));
print!("{:?};", split_first1(&p[0], &p[1], n));
print!("{:?};", split_last1(&p[0], &p[1], n));
print!("{:?};", pat_slice(&p[0], &p[1], n));
print!("{:?};", concat1(&p[0], &p[1], n));
print!("{:?};", insert1(&p[0], &p[1], n));
print!("{:?};", remove1(&p[0], &p[1], n));
print!("{:?};", swap1(&p[0], &p[1], n));
print!("{:?};", iter_mut1(&p[0], &p[1], n));
print!("{:?};", iter_mut2(&p[0], &p[1], n));
print!("{:?};", first_mut1(&p[0], &p[1], n));
print!("{:?};", get_range(&p[0], &p[1], n));
print!("{:?};", bset(&p[0], &p[1], n));
print!("{:?};", hset(&p[0], &p[1], n));
print!("{:?};", dup(&p[0], &p[1], n));
print!("{:?};", try_map(&p[0], &p[1], n));
print!("{:?};", try_opt(&p[0], &p[1], n));
print!("{:?};", try_fold1(&p[0], &p[1], n));
print!("{:?};", question(&p[0], &p[1], n));
print!("{:?};", let_else(&p[0], &p[1], n));
print!("{:?};", enum_skip(&p[0], &p[1], n));
print!("{:?};", enum_sel(&p[0], &p[1], n));
print!("{:?};", cond_count(&p[0], &p[1], n));
print!("{:?};", prefix(&p[0], &p[1], n));
print!("{:?};", scan1(&p[0], &p[1], n));
print!("{:?};", bytes1(&p[0], &p[1], n));
print!("{:?};", bytes2(&p[0], &p[1], n));
print!("{:?};", pad(&p[0], &p[1], n));
print!("{:?};", pad2(&p[0], &p[1], n));
print!("{:?};", pad3(&p[0], &p[1], n));
print!("{:?};", pad4(&p[0], &p[1], n));
print!("{:?};", nested(&p[0], &p[1], n));
print!("{:?};", nested2(&p[0], &p[1], n));
print!("{:?};", matches1(&p[0], &p[1], n));
print!("{:?};", sort1(&p[0], &p[1], n));
print!("{:?};", dedup1(&p[0], &p[1], n));
print!("{:?};", eq_seq(&p[0], &p[1], n));
print!("{:?};", opt_chain(&p[0], &p[1], n));
print!("{:?};", count_f(&p[0], &p[1], n));
print!("{:?};", from_fn1(&p[0], &p[1], n));
print!("{:?};", while_let(&p[0], &p[1], n));
print!("{:?};", slice_walk(&p[0], &p[1], n));
print!("{:?};", labeled(&p[0], &p[1], n));
print!("{:?};", binop(&p[0], &p[1], n));
print!("{:?};", map_hash(&p[0], &p[1], n));
print!("{:?};", rec1(&p[0], &p[1], n));
print!("{:?};", copy_in(&p[0], &p[1], n));
print!("{:?};", split_at1(&p[0], &p[1], n));
print!("{:?};", repeat_n(&p[0], &p[1], n));
print!("{:?};", do_while(&p[0], &p[1], n));
println!(); } }
