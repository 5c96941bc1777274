// Where the tasks of a distributed job run: workers, task slots and the streams they keep.
use crate::rt::*;
use sail_execution::driver::task_assigner::{TaskAssigner, TaskAssignerOptions};
use sail_execution::id::{JobId, TaskKey, WorkerId};
use sail_execution::job_graph::TaskPlacement;
use sail_execution::task::scheduling::*;

fn job(i: u64) -> JobId { JobId(i) }
fn key(j: u64, stage: usize, partition: usize) -> TaskKey { TaskKey { job_id: job(j), stage, partition, attempt: 0 } }
fn entry(k: TaskKey, kind: u64) -> TaskSetEntry { TaskSetEntry { key: k, output: match kind { 0 => TaskOutputKind::Local, 1 => TaskOutputKind::Storage, _ => TaskOutputKind::External } } }
/// The task sets of a region: where each is to run and how many tasks (of different stages) share its slot.
#[derive(Clone)]
struct Shape { job: u64, sets: Vec<(bool, usize)> }
impl Shape {
    fn any(j: u64, most: u64) -> Shape {
        let sets = match any_fixed(0, most) { 0 => vec![(true, 1)], 1 => vec![(true, 1), (true, 1)], 2 => vec![(true, 2)], 3 => vec![(false, 1), (true, 1)], 4 => vec![(true, 1), (true, 1), (true, 2)], _ => vec![(false, 2)] };
        Shape { job: j, sets }
    }
    fn keys(&self, set: usize) -> Vec<TaskKey> { (0..self.sets[set].1).map(|s| key(self.job, s, set)).collect() }
    fn region(&self) -> TaskRegion {
        TaskRegion { tasks: (0..self.sets.len()).map(|i| (if self.sets[i].0 { TaskPlacement::Worker } else { TaskPlacement::Driver }, TaskSet { entries: self.keys(i).into_iter().map(|k| entry(k, 1)).collect() })).collect() }
    }
    fn need(&self) -> usize { self.sets.iter().filter(|s| s.0).count() }
}
/// What the workers hold: per worker, whether it is there and the tasks of each slot.
struct Model { up: [bool; 3], slots: usize, held: [[Vec<TaskKey>; 2]; 3], queue: Vec<Shape>, requested: usize, driver: Vec<TaskKey> }
impl Model {
    fn new(slots: usize) -> Model { Model { up: [false; 3], slots, held: Default::default(), queue: vec![], requested: 0, driver: vec![] } }
    fn vacant(&self) -> usize { (0..3).filter(|w| self.up[*w]).map(|w| (0..self.slots).filter(|s| self.held[w][*s].is_empty()).count()).sum() }
    fn activate(&mut self, a: &mut TaskAssigner, w: usize) { a.activate_worker(WorkerId(w as u64)); self.up[w] = true; self.requested = self.requested.saturating_sub(1); }
    fn deactivate(&mut self, a: &mut TaskAssigner, w: usize) { a.deactivate_worker(WorkerId(w as u64)); self.up[w] = false; self.held[w] = Default::default(); }
    fn enqueue(&mut self, a: &mut TaskAssigner, s: Shape) { a.enqueue_tasks(s.region()); self.queue.push(s); }
    /// The regions assigned are the first ones of the queue that fit, whole, each set in a vacant slot of its own.
    fn assign(&mut self, a: &mut TaskAssigner) {
        let got = a.assign_tasks();
        let mut at = 0;
        while !self.queue.is_empty() && self.queue[0].need() <= self.vacant() {
            let r = self.queue.remove(0);
            for (i, set) in r.sets.iter().enumerate() {
                check(at < got.len(), 1);
                if at >= got.len() { return; }
                let keys = r.keys(i);
                check(got[at].set.entries.len() == keys.len() && got[at].set.entries.iter().zip(&keys).all(|(e, k)| e.key == *k), 2);
                match &got[at].assignment {
                    TaskAssignment::Driver => { check(!set.0, 3); self.driver.extend(keys); }
                    TaskAssignment::Worker { worker_id, slot } => {
                        let w = worker_id.0 as usize;
                        check(set.0, 4);
                        check(w < 3 && *slot < self.slots, 5);
                        check(self.up[w] && self.held[w][*slot].is_empty(), 6);
                        self.held[w][*slot] = keys;
                    }
                }
                at += 1;
            }
            reach(7);
        }
        check(at == got.len(), 8);
    }
    fn unassign(&mut self, a: &mut TaskAssigner, k: &TaskKey) {
        a.unassign_task(k);
        for w in 0..3 { for s in 0..2 { self.held[w][s].retain(|x| x != k); } }
        self.driver.retain(|x| x != k);
    }
    fn same(&self, a: &TaskAssigner) {
        let ids = a.active_worker_ids();
        for w in 0..3 {
            let mut want: Vec<&TaskKey> = self.held[w].iter().flatten().collect();
            let got = a.find_worker_tasks(WorkerId(w as u64));
            check(got.len() == want.len() && got.iter().all(|k| want.contains(&k)), 9);
            check(a.is_worker_idle(WorkerId(w as u64)) == (self.up[w] & want.is_empty()), 10);
            check(ids.iter().filter(|i| i.0 == w as u64).count() == self.up[w] as usize, 11);
        }
    }
    fn request(&mut self, a: &mut TaskAssigner, max: usize) {
        let got = a.request_workers();
        let need: usize = self.queue.iter().map(|r| r.need()).sum();
        let vacant = self.vacant();
        let want = if need > vacant { (need - vacant + self.slots - 1) / self.slots } else { 0 };
        let up = self.up.iter().filter(|u| **u).count();
        let have = up + self.requested;
        let room = if max == 0 { want } else if max > have { max - have } else { 0 };
        check(got == if want < room { want } else { room }, 12);
        check((max == 0) | (got == 0) | (have + got <= max), 13);
        self.requested += got;
    }
}
fn assigner(slots: usize, max: usize) -> TaskAssigner { TaskAssigner::new(TaskAssignerOptions { worker_task_slots: slots, worker_max_count: max }) }
//@ bound: up to two workers of one or two slots, two waiting regions of one to three task sets on workers or the driver, one or two tasks sharing a slot; then nothing, a task ending, a worker lost or one arriving, and a third region
//@ says: waiting regions are assigned whole and in order, each task set in a free slot of a live worker (or on the driver) shared with no other, for as long as the slots last; a slot is free again once all of its tasks ended
crate::h!(h_assign {
    let slots = any_fixed(1, 2) as usize;
    let mut a = assigner(slots, 0);
    let mut m = Model::new(slots);
    for w in 0..any_fixed(0, 2) as usize { m.activate(&mut a, w); }
    m.enqueue(&mut a, Shape::any(1, 5));
    m.enqueue(&mut a, Shape::any(2, 3));
    m.assign(&mut a);
    m.same(&a);
    match any_fixed(0, 5) {
        0 => {}
        1 => m.unassign(&mut a, &key(1, 0, 0)),
        2 => m.unassign(&mut a, &key(2, 0, 1)),
        3 => { m.unassign(&mut a, &key(1, 0, 0)); m.unassign(&mut a, &key(1, 1, 0)) }
        4 => m.deactivate(&mut a, 0),
        _ => m.activate(&mut a, 2),
    }
    m.enqueue(&mut a, Shape::any(3, 1));
    m.assign(&mut a);
    m.same(&a);
});
//@ bound: any limit on the workers, up to two live ones, one or two slots each, two waiting regions, requests made up to three times with a worker arriving or failing to start in between
//@ says: as many workers are asked for as the waiting tasks need beyond the free slots, and live and requested ones together never pass the limit
crate::h!(h_request {
    let slots = any_fixed(1, 2) as usize;
    let max = any_u64() as usize;
    let mut a = assigner(slots, max);
    let mut m = Model::new(slots);
    for w in 0..any_fixed(0, 2) as usize { m.activate(&mut a, w); }
    m.enqueue(&mut a, Shape::any(1, 5));
    m.request(&mut a, max);
    match any_fixed(0, 2) { 0 => {} 1 => { a.track_worker_failed_to_start(); m.requested = m.requested.saturating_sub(1) } _ => m.activate(&mut a, 2) }
    m.enqueue(&mut a, Shape::any(2, 1));
    m.request(&mut a, max);
    m.assign(&mut a);
    m.request(&mut a, max);
    m.same(&a);
});
//@ bound: a waiting region, excluded by any of three keys, before another one
//@ says: excluding a task takes its whole region out of the queue, and no other
crate::h!(h_exclude {
    let mut a = assigner(2, 0);
    let mut m = Model::new(2);
    for w in 0..2 { m.activate(&mut a, w); }
    let (r, s) = (Shape::any(1, 5), Shape::any(2, 1));
    m.enqueue(&mut a, r.clone());
    m.enqueue(&mut a, s);
    let k = key(1, any_fixed(0, 1) as usize, any_fixed(0, 2) as usize);
    a.exclude_task(&k);
    if (0..r.sets.len()).any(|i| r.keys(i).contains(&k)) { m.queue.remove(0); reach(14); } else { reach(15); }
    m.assign(&mut a);
    m.same(&a);
});
//@ bound: two tasks, each of either of two jobs and stages with an output kept by its worker, in storage or elsewhere, on the driver or on either of two workers; then the streams of one job, or of one stage of it, released
//@ says: a worker is idle only when it has no tasks and no kept output; releasing streams frees those of that job and stage and names exactly the workers (or driver) that held some
crate::h!(h_streams {
    let mut a = assigner(1, 0);
    for w in 0..2 { a.activate_worker(WorkerId(w)); }
    let mut held: Vec<(u64, usize, u64, u64)> = vec![];
    let mut sets = vec![];
    for i in 0..2usize {
        let (j, stage, kind, place) = (any_fixed(1, 2), any_fixed(0, 1) as usize, any_fixed(0, 2), any_fixed(0, 2));
        let set = TaskSet { entries: vec![entry(key(j, stage, i), kind)] };
        sets.push(TaskSetAssignment { set, assignment: if place == 2 { TaskAssignment::Driver } else { TaskAssignment::Worker { worker_id: WorkerId(place), slot: 0 } } });
        held.push((j, stage, kind, place));
    }
    a.track_streams(&sets);
    for w in 0..2 { check(a.is_worker_idle(WorkerId(w)) == !held.iter().any(|h| h.2 == 0 && h.3 == w), 20); }
    let stage = if any_fixed(0, 1) == 1 { Some(0) } else { None };
    let hit = |h: &(u64, usize, u64, u64)| h.0 == 1 && stage.is_none_or(|s| h.1 == s);
    let got = a.untrack_local_streams(job(1), stage);
    let mut n = 0;
    for p in 0..3 {
        let want = held.iter().any(|h| hit(h) && h.2 == 0 && h.3 == p);
        n += want as usize;
        check(got.contains(&if p == 2 { TaskStreamAssignment::Driver } else { TaskStreamAssignment::Worker { worker_id: WorkerId(p) } }) == want, 21);
    }
    check(got.len() == n, 22);
    check(a.untrack_storage_streams(job(1), stage) == held.iter().any(|h| hit(h) && h.2 == 1), 23);
    check(a.untrack_external_streams(job(1), stage) == held.iter().any(|h| hit(h) && h.2 == 2), 24);
    for w in 0..2 { check(a.is_worker_idle(WorkerId(w)) == !held.iter().any(|h| !hit(h) && h.2 == 0 && h.3 == w), 25); }
    check(!a.untrack_storage_streams(job(1), stage) & !a.untrack_external_streams(job(1), stage) & a.untrack_local_streams(job(1), stage).is_empty(), 26);
});
