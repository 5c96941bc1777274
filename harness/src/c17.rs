// When the tasks of a distributed job run, are retried, and what becomes of their output.
//@@ cut: arrow_cast arrow_select arrow_string arrow_arith arrow_row arrow_ord arrow_ipc arrow_csv arrow_json parquet serde_arrow regex regex_automata regex_syntax reqwest hyper tonic prost sqlparser apache_avro object_store
//@@ cut: datafusion datafusion_sql datafusion_optimizer datafusion_catalog datafusion_datasource datafusion_execution datafusion_functions datafusion_functions_nested datafusion_functions_aggregate datafusion_common_runtime
//@@ cut: datafusion_physical_plan !datafusion_physical_plan::execution_plan::PlanProperties* !<alloc::* !<std::* datafusion_physical_expr !datafusion_physical_expr::Partitioning* !datafusion_physical_expr::partitioning* datafusion_proto datafusion_expr
//@@ cut: sail_execution::proto* <sail_execution::proto* sail_execution::codec* sail_delta_lake sail_iceberg sail_function sail_plan sail_session sail_data_source
use crate::rt::*;
use datafusion::execution::TaskContext;
use datafusion::physical_plan::*;
use opentelemetry::logs::LoggerProvider;
use sail_execution::driver::job_scheduler::core::*;
use sail_execution::driver::job_scheduler::state::*;
use sail_execution::driver::job_scheduler::*;
use sail_execution::driver::output::JobOutputManager;
use sail_execution::id::{JobId, TaskKey};
use sail_execution::job_graph::*;
use sail_execution::shuffle::*;
use sail_execution::task::definition::TaskInputKey;
use sail_execution::task::scheduling::*;
use std::sync::Arc;

struct S { n: usize, mode: OutputMode, inputs: Vec<(usize, InputMode)>, group: &'static str, place: TaskPlacement }
fn s(n: usize, blocking: bool, inputs: &[(usize, InputMode)]) -> S { S { n, mode: if blocking { OutputMode::Blocking } else { OutputMode::Pipelined }, inputs: inputs.to_vec(), group: "", place: TaskPlacement::Worker } }
/// A plan that only knows how many partitions it has.
#[derive(Debug)]
struct P(arrow::datatypes::SchemaRef, Arc<PlanProperties>);
impl DisplayAs for P { fn fmt_as(&self, _: DisplayFormatType, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl ExecutionPlan for P {
    fn name(&self) -> &str { "p" }
    fn schema(&self) -> arrow::datatypes::SchemaRef { self.0.clone() }
    fn properties(&self) -> &Arc<PlanProperties> { &self.1 }
    fn children(&self) -> Vec<&Arc<dyn ExecutionPlan>> { vec![] }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn ExecutionPlan>>) -> datafusion_common::Result<Arc<dyn ExecutionPlan>> { Ok(self) }
    fn execute(&self, _: usize, _: Arc<TaskContext>) -> datafusion_common::Result<SendableRecordBatchStream> { unreachable!() }
}
fn properties(n: usize) -> Arc<PlanProperties> {
    // the other properties are not looked at, nor ever dropped
    let mut p = Arc::<PlanProperties>::new_uninit();
    unsafe {
        std::ptr::addr_of_mut!((*Arc::get_mut(&mut p).unwrap().as_mut_ptr()).partitioning).write(Partitioning::UnknownPartitioning(n));
        let p = p.assume_init();
        std::mem::forget(p.clone());
        p
    }
}
fn graph(stages: &[S]) -> JobGraph {
    let schema = Arc::new(arrow::datatypes::Schema::empty());
    JobGraph {
        stages: stages.iter().map(|x| Stage {
            inputs: x.inputs.iter().map(|(stage, mode)| StageInput { stage: *stage, mode: *mode }).collect(),
            plan: Arc::new(P(schema.clone(), properties(x.n))),
            group: x.group.to_string(), mode: x.mode, distribution: OutputDistribution::RoundRobinBatch { channels: 1 }, placement: x.place,
        }).collect(),
        schema: schema.clone(),
        options: JobGraphOptions { shuffle_backend: ShuffleBackendKind::Storage { path: None, max_file_size: 1, compression: unsafe { std::mem::zeroed() } } },
    }
}
/// A job of this graph, and the output it writes to.
fn scheduler(g: JobGraph, max: usize) -> JobScheduler {
    let logger = opentelemetry_sdk::logs::SdkLoggerProvider::builder().build().logger("x");
    let options = JobSchedulerOptions { session_id: String::new(), task_launch_timeout: std::time::Duration::from_secs(1), task_max_attempts: max, shuffle_backend: ShuffleBackendKind::Flight };
    let mut s = JobScheduler::new(options, sail_telemetry::system_event::SystemEventReporter::new(logger));
    let (sender, receiver) = tokio::sync::mpsc::channel(4);
    std::mem::forget(receiver);
    // no step looks at the context, so there is none
    let context: Arc<TaskContext> = unsafe { Arc::new_uninit().assume_init() };
    std::mem::forget(context.clone());
    s.jobs.insert(JobId(1), JobDescriptor::try_new(g, JobState::Running { output: JobOutputManager { sender } }, context).unwrap());
    s
}
fn state(k: u8) -> TaskState { match k { 0 => TaskState::Created, 1 => TaskState::Scheduled, 2 => TaskState::Running, 3 => TaskState::Succeeded, 4 => TaskState::Failed, _ => TaskState::Canceled } }
fn code(s: &TaskState) -> u8 { match s { TaskState::Created => 0, TaskState::Scheduled => 1, TaskState::Running => 2, TaskState::Succeeded => 3, TaskState::Failed => 4, TaskState::Canceled => 5 } }
type Attempts = Vec<Vec<Vec<u8>>>;
fn read(job: &JobDescriptor) -> Attempts { job.stages.iter().map(|s| s.tasks.iter().map(|t| t.attempts.iter().map(|a| code(&a.state)).collect()).collect()).collect() }
/// The tasks whose output a task reads.
fn reads(g: &[S], stage: usize, p: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, mode) in &g[stage].inputs { for q in 0..g[*i].n { if !matches!(mode, InputMode::Forward) || q == p { v.push((*i, q)); } } }
    v
}
/// The tasks that must start together with each other: a number for each.
fn together(g: &[S]) -> Vec<Vec<usize>> {
    let mut id = 0;
    let mut r: Vec<Vec<usize>> = g.iter().map(|s| (0..s.n).map(|_| { id += 1; id }).collect()).collect();
    for _ in 0..4 { for st in 0..g.len() { for p in 0..g[st].n { for (i, q) in reads(g, st, p) { if matches!(g[i].mode, OutputMode::Pipelined) {
        let m = r[st][p].min(r[i][q]);
        r[st][p] = m;
        r[i][q] = m;
    } } } } }
    r
}
fn last(a: &Attempts, s: usize, p: usize) -> u8 { *a[s][p].last().unwrap_or(&9) }

/// One refresh of a job from any state it can be in: what is started, cancelled, released and reported.
fn refresh(g: Vec<S>, max: usize) {
    let mut sch = scheduler(graph(&g), max);
    let with = together(&g);
    let mut inactive = vec![false; g.len()];
    {
        let job = sch.jobs.get_mut(&JobId(1)).unwrap();
        // every task that starts together has been tried as often, and only after what it reads from storage was written
        let mut known: Vec<usize> = vec![];
        let tasks: Vec<(usize, usize)> = (0..g.len()).flat_map(|st| (0..g[st].n).map(move |p| (st, p)).collect::<Vec<_>>()).collect();
        while let Some(r) = tasks.iter().map(|t| with[t.0][t.1]).find(|r| !known.contains(r) && tasks.iter().filter(|t| with[t.0][t.1] == *r).all(|t| reads(&g, t.0, t.1).iter().all(|x| with[x.0][x.1] == *r || known.contains(&with[x.0][x.1])))) {
            known.push(r);
            let of: Vec<(usize, usize)> = tasks.iter().copied().filter(|t| with[t.0][t.1] == r).collect();
            let a = read(job);
            let ready = of.iter().all(|t| reads(&g, t.0, t.1).iter().all(|x| with[x.0][x.1] == r || last(&a, x.0, x.1) == 3));
            let n = if ready { any_fixed(0, max as u64) as usize } else { 0 };
            for (st, p) in of {
                for i in 0..n {
                    let k = if i + 1 < n { 4 } else { any_fixed(0, 4) as u8 };
                    let k = if i + 1 == n && k > 0 { k + 1 } else { k };
                    job.stages[st].tasks[p].attempts.push(TaskAttemptDescriptor { state: state(k), messages: vec![], cause: None, job_output_fetched: false });
                }
            }
        }
        let a = read(job);
        // the output of a stage may have been released once nothing can read it any more
        for st in 0..g.len() {
            let used = (0..g.len()).any(|c| (0..g[c].n).any(|p| reads(&g, c, p).iter().any(|x| x.0 == st) && !done(&g, &with, &a, c, p)));
            let read = g.iter().any(|c| c.inputs.iter().any(|i| i.0 == st));
            inactive[st] = read && !used && any_fixed(0, 1) == 1;
            if inactive[st] { job.stages[st].state = StageState::Inactive; }
        }
        // what was handed to the reader of the job's result before
        for st in 0..g.len() { for p in 0..g[st].n { for x in job.stages[st].tasks[p].attempts.iter_mut() { if matches!(x.state, TaskState::Succeeded) & !g.iter().any(|c| c.inputs.iter().any(|i| i.0 == st)) { x.job_output_fetched = any_fixed(0, 1) == 1; } } } }
    }
    let a = read(&sch.jobs[&JobId(1)]);
    let fetched: Vec<Vec<bool>> = sch.jobs[&JobId(1)].stages.iter().map(|s| s.tasks.iter().map(|t| t.attempts.last().is_some_and(|x| x.job_output_fetched)).collect()).collect();
    let actions = sch.refresh_job(JobId(1));
    let job = &sch.jobs[&JobId(1)];
    let b = read(job);
    let (mut started, mut cancelled, mut given, mut failed): (Vec<TaskKey>, Vec<TaskKey>, Vec<(usize, usize, usize)>, usize) = (vec![], vec![], vec![], 0);
    for x in &actions {
        match x {
            JobAction::ScheduleTaskRegion { region } => for (place, set) in &region.tasks {
                // no slot is taken for nothing, and none holds two tasks of one stage
                check(!set.entries.is_empty(), 1);
                for e in &set.entries {
                    check(matches!((place, g[e.key.stage].place), (TaskPlacement::Worker, TaskPlacement::Worker) | (TaskPlacement::Driver, TaskPlacement::Driver)), 2);
                    check(matches!((&e.output, g[e.key.stage].mode), (TaskOutputKind::Local, OutputMode::Pipelined) | (TaskOutputKind::Storage, OutputMode::Blocking)), 3);
                    check(set.entries.iter().filter(|o| o.key.stage == e.key.stage).count() == 1, 4);
                    // what starts together is in the same region
                    for st in 0..g.len() { for p in 0..g[st].n { if with[st][p] == with[e.key.stage][e.key.partition] { check(region.tasks.iter().any(|(_, s)| s.entries.iter().any(|o| o.key.stage == st && o.key.partition == p)), 5); } } }
                    started.push(e.key.clone());
                }
            },
            JobAction::CancelTask { key } => cancelled.push(key.clone()),
            JobAction::ExtendJobOutput { key, .. } => given.push((key.stage, key.partition, key.attempt)),
            JobAction::FailJobOutput { .. } => failed += 1,
            JobAction::CleanUpJob { stage, .. } => match stage { Some(s) => { check(!inactive[*s], 6); inactive[*s] = true; reach(30); } None => check(false, 7) },
        }
    }
    let all = |v: &Attempts| (0..g.len()).all(|st| (0..g[st].n).all(|p| last(v, st, p) == 3));
    for st in 0..g.len() { for p in 0..g[st].n {
        let n = started.iter().filter(|k| k.stage == st && k.partition == p).count();
        let before = a[st][p].len();
        // an attempt of its own, after every earlier one ended, with all it reads there, and not too often
        check(n <= 1 && b[st][p].len() == before + n, 8);
        if n == 1 {
            reach(31);
            check(started.iter().any(|k| k.stage == st && k.partition == p && k.attempt == before && k.job_id == JobId(1)), 9);
            check(before < max && last(&b, st, p) == 0, 10);
            check(!done(&g, &with, &a, st, p), 11);
            for i in 0..before { check(b[st][p][i] >= 3, 12); }
            for (i, q) in reads(&g, st, p) {
                check(with[i][q] == with[st][p] || last(&a, i, q) == 3, 13);
                check(!inactive[i], 14);
            }
        }
        // with a failure, the rest of what started together is stopped; nothing else is
        let fail = (0..g.len()).any(|s2| (0..g[s2].n).any(|p2| with[s2][p2] == with[st][p] && last(&a, s2, p2) == 4));
        for i in 0..before {
            let c = cancelled.iter().filter(|k| k.stage == st && k.partition == p && k.attempt == i).count();
            check(c == (fail && a[st][p][i] < 3) as usize, 15);
            check(b[st][p][i] == if c == 1 { 5 } else { a[st][p][i] }, 16);
        }
        // the result is read from each running or finished task of a last stage, once
        let end = !g.iter().any(|c| c.inputs.iter().any(|i| i.0 == st));
        let want = end && before > 0 && (last(&a, st, p) == 3 || last(&a, st, p) == 2 && !fail) && !fetched[st][p];
        check(given.iter().filter(|k| k.0 == st && k.1 == p).count() == want as usize && given.iter().all(|k| k.0 != st || k.1 != p || k.2 + 1 == before), 17);
    } }
    let dead = (0..g.len()).any(|st| (0..g[st].n).any(|p| b[st][p].len() >= max && { let l = if started.iter().any(|k| k.stage == st && k.partition == p) { 0 } else { last(&b, st, p) }; l == 4 || l == 5 }));
    if dead { check(failed == 1 && started.is_empty() && matches!(job.state, JobState::Failed), 18); reach(32); }
    else if all(&a) { check(failed == 0 && started.is_empty() && matches!(job.state, JobState::Draining), 19); reach(33); }
    else {
        // the job goes on
        check(failed == 0 && matches!(job.state, JobState::Running { .. }), 20);
        check((0..g.len()).any(|st| (0..g[st].n).any(|p| last(&b, st, p) < 3)), 21);
    }
    std::mem::forget(actions);
    std::mem::forget(sch);
}
/// Whether a task will never run again: everything it starts together with is done.
fn done(g: &[S], with: &[Vec<usize>], a: &Attempts, st: usize, p: usize) -> bool { (0..g.len()).all(|s2| (0..g[s2].n).all(|p2| with[s2][p2] != with[st][p] || last(a, s2, p2) == 3)) }

//@ bound: a stage of two tasks feeding another of two by shuffle, through storage or directly; one or two attempts, every state of every attempt a job can be in
//@ says: tasks start when all they read is there, together with those they exchange data with directly, at most as often as allowed; a failure stops those and retries or fails the job; otherwise it goes on until all succeeded
crate::h!(h_two { let b = any_bool_fixed(); refresh(vec![s(2, b, &[]), s(2, false, &[(0, InputMode::Shuffle)])], any_fixed(1, 2) as usize) });
fn any_bool_fixed() -> bool { any_fixed(0, 1) == 1 }
//@ bound: a stage of two tasks feeding one of two, feeding one of one, each through storage or directly, by shuffle then merge; two attempts, every state a job can be in
//@ says: as above; and what a stage wrote is kept while a task reading it may still have to run again
crate::h!(h_three { let (a, b) = (any_bool_fixed(), any_bool_fixed()); refresh(vec![s(1, a, &[]), s(2, b, &[(0, InputMode::Shuffle)]), s(1, false, &[(1, InputMode::Merge)])], 2) });
//@ bound: two stages of two tasks feeding each other partition by partition, through storage or directly, one or two attempts, every state a job can be in
//@ says: as above, each partition on its own
crate::h!(h_forward { let b = any_bool_fixed(); refresh(vec![s(2, b, &[]), s(2, false, &[(0, InputMode::Forward)])], any_fixed(1, 2) as usize) });
//@ bound: two stages of one task feeding a third of two, by broadcast and by shuffle, each through storage or directly; two attempts (one with both direct), every state a job can be in
//@ says: as above
crate::h!(h_join { let (a, b) = (any_bool_fixed(), any_bool_fixed()); refresh(vec![s(1, a, &[]), s(1, b, &[]), s(2, false, &[(0, InputMode::Broadcast), (1, InputMode::Shuffle)])], if a | b { 2 } else { 1 }) });
//@ bound: every state of an attempt and every state reported for it, once or twice
//@ says: an attempt that ended stays as it ended; otherwise it goes from created to scheduled to running and never back
crate::h!(h_update {
    let mut sch = scheduler(graph(&[s(1, false, &[])]), 1);
    let (x, y, z) = (any_u8(), any_u8(), any_u8());
    assume(x <= 5 && y <= 5 && z <= 5);
    sch.jobs.get_mut(&JobId(1)).unwrap().stages[0].tasks[0].attempts.push(TaskAttemptDescriptor { state: state(x), messages: vec![], cause: None, job_output_fetched: false });
    let k = TaskKey { job_id: JobId(1), stage: 0, partition: 0, attempt: 0 };
    let step = |a: u8, b: u8| if a >= 3 || b < a { a } else { b };
    sch.update_task(&k, state(y), None, None);
    check(code(&sch.get_task_state(&k).unwrap()) == step(x, y), 1);
    sch.update_task(&k, state(z), None, None);
    check(code(&sch.get_task_state(&k).unwrap()) == step(step(x, y), z), 2);
    check(sch.get_task_state(&TaskKey { attempt: 1, ..k }).is_none(), 3);
    std::mem::forget(sch);
});
//@ bound: two tasks of two stages, with up to two attempts and one, in every state, the job running or ending
//@ says: ending a job cancels each attempt still going and no other, releases all it wrote, and counts as success only if every task had succeeded
crate::h!(h_end {
    let mut sch = scheduler(graph(&[s(1, true, &[]), s(2, false, &[(0, InputMode::Shuffle)])]), 2);
    let job = sch.jobs.get_mut(&JobId(1)).unwrap();
    for (st, p, n) in [(0, 0, 2), (1, 1, 1)] { for _ in 0..any_fixed(0, n) { let k = any_u8(); assume(k <= 5); job.stages[st].tasks[p].attempts.push(TaskAttemptDescriptor { state: state(fix(k as u64) as u8), messages: vec![], cause: None, job_output_fetched: false }); } }
    let drain = any_fixed(0, 1) == 1;
    if drain { job.state = JobState::Draining; }
    let a = read(job);
    let actions = sch.clean_up_job(JobId(1));
    for st in 0..2 { for p in 0..a[st].len() { for i in 0..a[st][p].len() {
        check(actions.iter().filter(|x| matches!(x, JobAction::CancelTask { key } if key.stage == st && key.partition == p && key.attempt == i)).count() == (a[st][p][i] < 3) as usize, 1);
    } } }
    check(actions.iter().filter(|x| matches!(x, JobAction::CleanUpJob { stage: None, .. })).count() == 1, 2);
    let job = &sch.jobs[&JobId(1)];
    check(if drain { matches!(job.state, JobState::Succeeded) } else { matches!(job.state, JobState::Canceled) }, 3);
    check(job.stages.iter().all(|s| matches!(s.state, StageState::Inactive)), 4);
    std::mem::forget(actions);
    std::mem::forget(sch);
});
//@ bound: one to four tasks with one to three channels read by one to four tasks in each of the five ways; one or two attempts of each
//@ says: every partition and channel is read, from its latest attempt, by the tasks that are to read it: once in all, or once by each for merge and broadcast
crate::h!(h_inputs {
    let (n, ch, m) = (any_fixed(1, 4) as usize, any_fixed(1, 3) as usize, any_fixed(1, 4) as usize);
    let mode = match any_fixed(0, 4) { 0 => InputMode::Forward, 1 => InputMode::Merge, 2 => InputMode::Shuffle, 3 => InputMode::Broadcast, _ => InputMode::Rescale };
    let m = match mode { InputMode::Forward => n, InputMode::Shuffle => ch, _ => m };
    let mut g = graph(&[s(n, true, &[]), s(m, false, &[(0, mode)])]);
    g.stages[0].distribution = OutputDistribution::RoundRobinBatch { channels: ch };
    let mut sch = scheduler(g, 2);
    let job = sch.jobs.get_mut(&JobId(1)).unwrap();
    let tries: Vec<usize> = (0..n).map(|_| any_fixed(1, 2) as usize).collect();
    for p in 0..n { for _ in 0..tries[p] { job.stages[0].tasks[p].attempts.push(TaskAttemptDescriptor { state: TaskState::Succeeded, messages: vec![], cause: None, job_output_fetched: false }); } }
    let k = TaskKey { job_id: JobId(1), stage: 1, partition: 0, attempt: 0 };
    struct None_;
    impl TaskAssignmentGetter for None_ { fn get(&self, _: &TaskKey) -> Option<&TaskAssignment> { None } }
    let b = TaskInputBuilder { job, key: &k, input: &job.graph.stages()[1].inputs[0], producer: &job.graph.stages()[0], consumer: &job.graph.stages()[1], assignments: &None_ };
    let keys = b.build_task_input_keys().unwrap();
    for key in keys.iter().flatten() { check(key.partition < n && key.channel < ch && key.attempt + 1 == tries[key.partition], 1); }
    let count = |group: &[TaskInputKey], p: usize, c: usize| group.iter().filter(|k| k.partition == p && k.channel == c).count();
    for p in 0..n { for c in 0..ch {
        check(keys.iter().map(|x| count(x, p, c)).sum::<usize>() == 1, 2);
        match mode {
            InputMode::Forward | InputMode::Merge => check(count(&keys[p], p, c) == 1, 3),
            InputMode::Shuffle => check(count(&keys[c], p, c) == 1, 4),
            _ => {}
        }
    } }
    check(keys.len() == match mode { InputMode::Forward | InputMode::Merge => n, InputMode::Broadcast => 1, _ => m }, 5);
    std::mem::forget(sch);
});
