//! The explorer against itself: on small programs, the reduced exploration reaches exactly the results
//! that the enumeration of every schedule reaches.

use eng::{Limits, Strategy};
use fstd::sync::atomic::{AtomicUsize, Ordering::*};
use fstd::sync::{mpsc, Arc, Condvar, Mutex, OnceLock, RwLock};
use fstd::thread;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

type Out = Rc<RefCell<BTreeMap<String, u64>>>;
type Prog = fn() -> String;

pub fn programs() -> Vec<(&'static str, Prog, bool)> {
    vec![
        ("store buffer", || {
            let x = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
            let y = x.clone();
            let a = thread::spawn(move || { y.0.store(1, SeqCst); y.1.load(SeqCst) });
            let y = x.clone();
            let b = thread::spawn(move || { y.1.store(1, SeqCst); y.0.load(SeqCst) });
            format!("{} {}", a.join().unwrap(), b.join().unwrap())
        }, false),
        ("lost update", || {
            let x = Arc::new(AtomicUsize::new(0));
            let h: Vec<_> = (0..3).map(|_| { let x = x.clone(); thread::spawn(move || { let v = x.load(SeqCst); x.store(v + 1, SeqCst); v }) }).collect();
            let v: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
            format!("{v:?} {}", x.load(SeqCst))
        }, false),
        ("two locks", || {
            let m = Arc::new((Mutex::new(0u32), Mutex::new(0u32)));
            let h: Vec<_> = (1..4u32).map(|k| { let m = m.clone(); thread::spawn(move || {
                let r = { let mut a = m.0.lock().unwrap(); *a = *a * 10 + k; *a };
                let mut b = m.1.lock().unwrap(); *b = *b * 10 + k; (r, *b) }) }).collect();
            format!("{:?}", h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>())
        }, false),
        ("deadlock", || {
            let m = Arc::new((Mutex::new(0), Mutex::new(0)));
            let n = m.clone();
            let a = thread::spawn(move || { let _x = n.0.lock().unwrap(); let _y = n.1.lock().unwrap(); });
            let b = thread::spawn(move || { let _y = m.1.lock().unwrap(); let _x = m.0.lock().unwrap(); });
            a.join().unwrap(); b.join().unwrap();
            String::new()
        }, true),
        ("nested locks", || {
            let m = Arc::new((Mutex::new(vec![]), Mutex::new(0)));
            let h: Vec<_> = (0..3).map(|k| { let m = m.clone(); thread::spawn(move || {
                if k == 2 { let y = m.1.lock().unwrap(); return *y }
                let mut x = m.0.lock().unwrap(); x.push(k); let mut y = m.1.lock().unwrap(); *y = *y * 10 + k + 1; *y }) }).collect();
            let v: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
            let o = format!("{:?} {v:?}", m.0.lock().unwrap()); o
        }, false),
        ("wait for a flag", || {
            let m = Arc::new((Mutex::new(0), Condvar::new()));
            let h: Vec<_> = (1..3).map(|k| { let m = m.clone(); thread::spawn(move || { let g = m.1.wait_while(m.0.lock().unwrap(), |v| *v < k).unwrap(); *g }) }).collect();
            for _ in 0..2 { *m.0.lock().unwrap() += 1; m.1.notify_all(); }
            format!("{:?}", h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>())
        }, false),
        ("lost wake-up", || {
            let m = Arc::new((AtomicUsize::new(0), Mutex::new(()), Condvar::new()));
            let n = m.clone();
            let a = thread::spawn(move || { let mut g = n.1.lock().unwrap(); while n.0.load(SeqCst) == 0 { g = n.2.wait(g).unwrap(); } });
            m.0.store(1, SeqCst);
            m.2.notify_all();
            a.join().unwrap();
            String::new()
        }, true),
        ("notify one of two", || {
            let m = Arc::new((Mutex::new(0), Condvar::new()));
            let h: Vec<_> = (0..2).map(|_| { let m = m.clone(); thread::spawn(move || { let mut g = m.0.lock().unwrap(); while *g == 0 { g = m.1.wait(g).unwrap(); } *g += 10; let r = *g; m.1.notify_one(); r }) }).collect();
            *m.0.lock().unwrap() = 1;
            m.1.notify_one();
            format!("{:?}", h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>())
        }, false),
        ("channel", || {
            let (tx, rx) = mpsc::channel();
            let h: Vec<_> = (0..3).map(|k| { let tx = tx.clone(); thread::spawn(move || { tx.send(k).unwrap(); if k == 0 { tx.send(10).unwrap(); } }) }).collect();
            drop(tx);
            let mut v = vec![];
            while let Ok(x) = rx.recv() { v.push(x) }
            for x in h { x.join().unwrap() }
            format!("{v:?}")
        }, false),
        ("several receivers", || {
            let (mut tx, rx) = fspmc::channel();
            let (otx, orx) = mpsc::channel();
            let h: Vec<_> = (0..2).map(|k| { let rx = rx.clone(); let o = otx.clone(); thread::spawn(move || while let Ok(x) = rx.recv() { o.send((k, x)).unwrap(); }) }).collect();
            drop(otx);
            for i in 0..3 { tx.send(i).unwrap(); }
            drop(tx);
            let mut v = vec![];
            while let Ok(x) = orx.recv() { v.push(x) }
            for x in h { x.join().unwrap() }
            format!("{v:?}")
        }, false),
        ("once", || {
            let c = Arc::new(OnceLock::new());
            let h: Vec<_> = (0..3).map(|k| { let c = c.clone(); thread::spawn(move || { if k == 2 { return c.get().copied().unwrap_or(9) } if c.get().is_none() { let _ = c.set(k); } *c.get().unwrap() }) }).collect();
            format!("{:?}", h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>())
        }, false),
        ("readers and writers", || {
            let l = Arc::new(RwLock::new(0));
            let h: Vec<_> = (0..3).map(|k| { let l = l.clone(); thread::spawn(move || { let a = *l.read().unwrap(); if k > 0 { *l.write().unwrap() += k; } (a, *l.read().unwrap()) }) }).collect();
            format!("{:?}", h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>())
        }, false),
        ("pool of two", || {
            let p = frayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
            let m = Arc::new((Mutex::new(vec![]), Condvar::new()));
            for k in 0..3 { let m = m.clone(); p.spawn(move || { m.0.lock().unwrap().push(k); m.1.notify_all(); }) }
            let g = m.1.wait_while(m.0.lock().unwrap(), |v| v.len() < 3).unwrap();
            format!("{:?}", *g)
        }, false),
        ("bounded channel", || {
            let (tx, rx) = mpsc::sync_channel(1);
            let h = thread::spawn(move || { for k in 0..3 { tx.send(k).unwrap(); } });
            let a: Vec<_> = (0..4).map(|_| rx.try_recv().ok()).collect();
            let b: Vec<_> = rx.iter().collect();
            h.join().unwrap();
            format!("{a:?} {b:?}")
        }, false),
    ]
}

pub fn results(p: Prog, s: Strategy) -> (BTreeMap<String, u64>, eng::Report) {
    let out: Out = Default::default();
    let o = out.clone();
    let r = eng::explore(s, &Limits { spurious: 0, ..Default::default() }, Rc::new(move || {
        eng::begin();
        let v = p();
        *o.borrow_mut().entry(v).or_default() += 1;
    }));
    let v = out.borrow().clone();
    (v, r)
}

/// (executions by reduction, executions in full, results)
pub fn check(i: usize) -> Result<(u64, u64, usize), String> {
    let (n, p, faulty) = programs()[i];
    let (a, ra) = results(p, Strategy::Dpor);
    // all schedules; for the larger programs, those with few deviations
    let large = ["several receivers", "pool of two"].contains(&n);
    let (b, rb) = results(p, Strategy::Bounded { bound: if large { 3 } else { 1000 }, free: true });
    for r in [&ra, &rb] {
        if let Some(d) = &r.diverged { return Err(format!("{n}: diverges: {d}")) }
        if r.fault.is_some() != faulty { return Err(format!("{n}: fault {:?}", r.fault)) }
    }
    let (ka, kb): (Vec<_>, Vec<_>) = (a.keys().collect(), b.keys().collect());
    if large && !kb.iter().all(|k| ka.contains(k)) { return Err(format!("{n}: {kb:?} in full, {ka:?} by reduction")) }
    if !faulty && !large && ka != kb { return Err(format!("{n}: {} results by reduction, {} in full: {ka:?} / {kb:?}", ka.len(), kb.len())) }
    Ok((ra.runs, rb.runs, kb.len()))
}
