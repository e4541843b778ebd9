req!(Now, "t/now");
req!(Later, "t/later");
req!(Fail, "t/fail");
req!(Shut, "shutdown");
note!(Note, "t/note");
struct InitA(LspClient);
impl Initializer for InitA {
    type I = P;
    type S = Srv;
    fn initialize(self, p: P) -> (Srv, AnySchedulableResponse) {
        (Srv { client: self.0, tag: p.tag }, just_ok(json!({"tag": p.tag})))
    }
}
fn now(_: &mut Srv, p: P) -> SchedulableResponse<P> {
    just_ok(p)
}
fn later(_: &mut Srv, p: P) -> SchedulableResponse<P> {
    just_future(async move {
        tokio::time::sleep(Duration::from_millis(p.ms)).await;
        Ok(p)
    })
}
fn fail(_: &mut Srv, _: P) -> SchedulableResponse<P> {
    Err(internal_error("no"))
}
