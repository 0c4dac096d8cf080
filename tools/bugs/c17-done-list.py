PROPERTY = "C17"
NEEDS = "a call whose id was used by a call that was dropped after the reactor last looked at the registry"
BREAKS = "Finished ids are listed apart from new calls and are removed after the new calls are taken over, so the end of the previous call with an id removes the new one."
F = "protosocket-rpc/src/client/reactor/completion_registry.rs"
EDITS = [(F, '''    in_flight_submission: Arc<Mutex<HashMap<u64, CompletionState<Inbound>>>>,
    in_flight_buffer: HashMap<u64, CompletionState<Inbound>>,
    in_flight: ''', '''    in_flight_submission: Arc<Mutex<HashMap<u64, CompletionState<Inbound>>>>,
    in_flight_buffer: HashMap<u64, CompletionState<Inbound>>,
    done: Arc<Mutex<Vec<u64>>>,
    in_flight: '''),
 (F, '''            in_flight_buffer: Default::default(),
''', '''            in_flight_buffer: Default::default(),
            done: Default::default(),
'''),
 (F, '''            in_flight_submission: self.in_flight_submission.clone(),
        }
    }

    /// Returns a list''', '''            in_flight_submission: self.in_flight_submission.clone(),
            done: self.done.clone(),
        }
    }

    /// Returns a list'''),
 (F, '''            if in_flight_submission.is_empty() {
                return;
            }
''', ''),
 (F, '''                CompletionState::Done => {
                    log::debug!("{command_id} command done");
                    self.in_flight.remove(&command_id);
                }
            }
        }''', '''            }
        }
        for command_id in self
            .done
            .lock()
            .expect("brief internal mutex must work")
            .drain(..)
        {
            log::debug!("{command_id} command done");
            self.in_flight.remove(&command_id);
        }'''),
 (F, '''    closed: bool,
    in_flight_submission: Arc<Mutex<HashMap<u64, CompletionState<Inbound>>>>,
    message_id: u64,''', '''    closed: bool,
    done: Arc<Mutex<Vec<u64>>>,
    _phantom: std::marker::PhantomData<Inbound>,
    message_id: u64,'''),
 (F, '''        self.in_flight_submission
            .lock()
            .expect("brief internal mutex must work")
            // This doesn't result in a prompt wake of the reactor
            .insert(self.message_id, CompletionState::Done);''', '''        self.done
            .lock()
            .expect("brief internal mutex must work")
            // This doesn't result in a prompt wake of the reactor
            .push(self.message_id);'''),
 (F, '''pub struct RpcRegistrar<Inbound>
where
    Inbound: Message,
{
    in_flight_submission: Arc<Mutex<HashMap<u64, CompletionState<Inbound>>>>,
''', '''pub struct RpcRegistrar<Inbound>
where
    Inbound: Message,
{
    in_flight_submission: Arc<Mutex<HashMap<u64, CompletionState<Inbound>>>>,
    done: Arc<Mutex<Vec<u64>>>,
'''),
 (F, '''        CompletionGuard {
            in_flight_submission: self.in_flight_submission.clone(),
            message_id,''', '''        CompletionGuard {
            done: self.done.clone(),
            _phantom: std::marker::PhantomData,
            message_id,'''),
 (F, '''    InProgress(Completion<Inbound>),
    Done,
''', '''    InProgress(Completion<Inbound>),
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| RpcKind::Unary(async move { q }.boxed())).await;
        let c = rpc::client(a, 64).await;
        for i in 0..50 {
            let call = c.send_unary(m(9, i)).await.unwrap();
            match tokio::time::timeout(std::time::Duration::from_secs(3), call).await {
                Ok(r) => check(r.is_ok_and(|r| r.body.len() == i), "a call with an id used before fails"),
                Err(_) => check(false, "a call with an id used before gets no response"),
            }
        }
    });
}
'''
