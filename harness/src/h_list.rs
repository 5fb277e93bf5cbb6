//! The linked list behind many-particle simulations.
use crate::nd;
use moledyn::prelude::*;

/// indices of the living elements, in order, by walking both ways
fn walk<T>(l: &LinkedList<T>) -> (Vec<usize>, Vec<usize>) {
    let (mut f, mut r) = (vec![], vec![]);
    let mut c = l.head;
    while let Some(i) = c {
        if f.len() > l.links.len() { break; }
        f.push(i);
        c = l.links[i].next;
    }
    let mut c = l.tail;
    while let Some(i) = c {
        if r.len() > l.links.len() { break; }
        r.push(i);
        c = l.links[i].prev;
    }
    r.reverse();
    (f, r)
}
fn iterated<T: PartialEq + Copy>(l: &mut LinkedList<T>) -> Vec<(usize, T)> {
    let mut v = vec![];
    l.into_iter();
    while let Some((i, x)) = l.enumerate() {
        v.push((i, *x));
        if v.len() > 16 { break; }
    }
    v
}
fn history(steps: usize, start: usize) {
    let init: Vec<u64> = (0..start).map(|_| nd::u(0, u64::MAX)).collect();
    let mut model: Vec<(u64, bool)> = init.iter().map(|&x| (x, true)).collect();
    let mut l = if start > 0 && nd::b() { LinkedList::from(init) } else {
        let mut l = LinkedList::new();
        for x in init { l.push(x); }
        l
    };
    for _ in 0..steps {
        match nd::choose(3) {
            0 => {
                let x = nd::u(0, u64::MAX);
                l.push(x);
                model.push((x, true));
            }
            1 => {
                // one past the end included
                let i = nd::choose(model.len() + 1);
                let ok = i < model.len() && model[i].1;
                nd::check(l.del(i).is_ok() == ok, "exactly living elements can be deleted");
                if ok { model[i].1 = false; nd::cover("deleted"); }
            }
            _ => {
                nd::check(l.connect_all().is_ok(), "all elements can be brought back");
                for m in &mut model { m.1 = true; }
                nd::cover("reconnected");
            }
        }
    }
    let alive: Vec<usize> = (0..model.len()).filter(|&i| model[i].1).collect();
    let (f, r) = walk(&l);
    nd::check(f == alive && r == alive, "both directions link exactly the living elements in order");
    let it = iterated(&mut l);
    nd::check(it.len() == alive.len(), "iteration visits every living element once");
    for (k, (i, x)) in it.iter().enumerate() {
        nd::check(*i == alive[k] && *x == model[*i].0, "iteration is in order of insertion, with the element's contents");
    }
    nd::check(l.enumerate().is_none(), "iteration has ended");
    nd::cover("end");
}
fn list(n: usize) -> LinkedList<u64> { LinkedList::from((0..n as u64).collect()) }
/// pairs of living elements while the second of a pair may be deleted
fn pairs(n: usize, how: usize) {
    let mut l = list(n);
    let mut alive = vec![true; n];
    l.into_double_iter();
    let (mut i, mut j) = (0, 0);
    loop {
        // next pair of the reference
        let mut want = None;
        'o: while i < n {
            if alive[i] {
                while j + 1 < n {
                    j += 1;
                    if j > i && alive[j] { want = Some((i, j)); break 'o; }
                }
            }
            i += 1;
            j = i;
        }
        let got = match how {
            0 => l.indicies_double(),
            1 => l.enumerate_double().map(|(a, x, b, y)| { nd::check(*x == a as u64 && *y == b as u64, "contents belong to the indices"); (a, b) }),
            _ => l.get_double().map(|(x, y)| (*x as usize, *y as usize)),
        };
        nd::check(got == want, "each pair of living elements once, in order");
        let Some((_, b)) = got else { break };
        if nd::b() {
            nd::check(l.del(b).is_ok(), "the second of the pair can be deleted");
            alive[b] = false;
            nd::cover("deleted");
        }
    }
    nd::cover("end");
}

harnesses! {
    fn list_history_0() { history(5, 0) }
    fn list_history_3() { history(4, 3) }
    fn list_pairs_idx() { pairs(1 + nd::choose(5), 0) }
    fn list_pairs_enum() { pairs(1 + nd::choose(5), 1) }
    fn list_pairs_get() { pairs(1 + nd::choose(5), 2) }
    fn list_pairs_empty() {
        let mut l = list(0);
        l.into_iter();
        l.into_double_iter();
        nd::check(l.get().is_none() && l.get_mut().is_none() && l.indicies().is_none() && l.get_double().is_none() && l.indicies_double().is_none() && l.enumerate_double().is_none(), "an empty list has nothing to visit");
        nd::check(l.connect_all().is_ok() && l.head.is_none() && l.tail.is_none(), "an empty list stays empty");
        nd::cover("end");
    }
    fn list_delete_while_visiting() {
        // any element, the current one included, may be deleted while visiting
        let n = 1 + nd::choose(5);
        let mut l = list(n);
        let mut alive = vec![true; n];
        let how = nd::choose(5);
        l.into_iter();
        let mut want = 0;
        loop {
            while want < n && !alive[want] { want += 1; }
            let got = match how {
                0 => l.get().map(|x| *x as usize),
                1 => l.get_mut().map(|x| *x as usize),
                2 => l.enumerate().map(|(i, x)| { nd::check(*x == i as u64, "contents belong to the index"); i }),
                3 => l.enumerate_mut().map(|(i, x)| { nd::check(*x == i as u64, "contents belong to the index"); i }),
                _ => l.indicies(),
            };
            nd::check(got == if want < n { Some(want) } else { None }, "each living element once, in order, whatever is deleted meanwhile");
            if got.is_none() { break; }
            want += 1;
            let k = nd::choose(n + 1);
            if k < n && alive[k] {
                nd::check(l.del(k).is_ok(), "a living element can be deleted");
                alive[k] = false;
                nd::cover("deleted");
            }
        }
        nd::cover("end");
    }
    fn list_change() {
        // changes through the iterator reach exactly the living elements
        let n = 1 + nd::choose(3);
        let x: Vec<u64> = (0..n).map(|_| nd::u(0, 1000)).collect();
        let mut l = LinkedList::from(x.clone());
        let k = nd::choose(n + 1);
        let _ = l.del(k);
        l.into_iter();
        if nd::b() { while let Some(y) = l.get_mut() { *y += 7; } } else { while let Some((_, y)) = l.enumerate_mut() { *y += 7; } }
        for i in 0..n {
            nd::check(l.contents[i] == if i == k { x[i] } else { x[i] + 7 }, "exactly the living elements change");
        }
        nd::cover("end");
    }
    fn list_clear() {
        let n = 1 + nd::choose(3);
        let mut l = LinkedList::from((0..n).map(|_| Position::new(vec![nd::f(-1e3, 1e3), nd::f(-1e3, 1e3)])).collect::<Vec<_>>());
        l.clear();
        for p in &l.contents { nd::check(p.dim() == 2 && p[0] == 0.0 && p[1] == 0.0, "every position is cleared"); }
        nd::cover("end");
    }
    fn list_merge() {
        // clusters in a list: nothing is created or lost by merging
        let n = 1 + nd::choose(3);
        let mut l = LinkedList::new();
        let mut total = 0;
        let mut size = vec![];
        let kind = nd::choose(2);
        for _ in 0..n {
            let s = nd::us(1, 1000);
            let mut a = ContPassiveMergeAgent::new(if kind == 0 { MoveType::Brownian(1.0) } else { MoveType::Levy }, Position::new(vec![0.0]), 0.1, 0.5);
            a.size = s;
            total += s;
            size.push(s);
            l.push(a);
        }
        let mut alive = vec![true; n];
        for _ in 0..2 {
            let (i, j) = (nd::choose(n + 1), nd::choose(n + 1));
            let ok = i != j && i < n && j < n && alive[i] && alive[j] && kind == 0;
            let r = l.merge(i, j);
            nd::check(r.is_ok() == ok, "exactly two different living clusters that can grow merge");
            if ok {
                size[i] += size[j];
                alive[j] = false;
                nd::cover("merged");
            }
            let (f, r) = walk(&l);
            let e: Vec<usize> = (0..n).filter(|&k| alive[k]).collect();
            nd::check(f == e && r == e, "the second cluster, and only it, leaves the list");
            let mut sum = 0;
            for &k in &e {
                nd::check(l.contents[k].size() == size[k], "the first cluster has the size of both, the others keep theirs");
                sum += l.contents[k].size();
            }
            nd::check(sum == total, "the number of particles is conserved");
        }
        nd::cover("end");
    }
}
