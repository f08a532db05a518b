# executed by seeds.py
ONE = dict(svc0=svc())
TWO = dict(svc0=svc(), svc1=svc(endpoint="cl1"))
OK = dict(code=1, headers=[])
OVER = dict(code=2, headers=[])

seed("r1-same-name", "G06",
     [(PIPE + "factory.rs", "|blueprints| blueprints.push(Arc::clone(&blueprint)),",
       "|blueprints| {\n                        if blueprints.iter().all(|b| b.name != blueprint.name) {\n                            blueprints.push(Arc::clone(&blueprint))\n                        }\n                    },")],
     "two action sets of the same name sharing a hostname and a request that only the second one's predicates match",
     "the second action set is never indexed, its requests pass ungoverned",
     [cfg(ONE, [aset([deny(401)], preds=["request.method == 'POST'"], name="x"), aset([deny(403)], preds=["request.method == 'GET'"], name="x")]),
      stream(), step("request_headers", has=["reply 403"])])

seed("p1-noop-guard", "G05",
     [(PIPE + "executor.rs", "Box::new(noop_response_processor(token_id, is_guard)),", "Box::new(noop_response_processor(token_id, false)),")],
     "two guarding calls outstanding when one answer denies the request, then the reply's own response phase",
     "the barrier is never lowered for the abandoned call: the local reply is held forever",
     [cfg(dict(TWO, svc2=svc(endpoint="cl2")), [aset([grpc("svc0", on_reply=[deny(403, "r.overall_code == 2")]), grpc("svc1", var="q"), grpc("svc2", var="z", guard=False)])]),
      stream(), step("request_headers", action="Pause", has=["call cl0", "call cl1", "call cl2"]),
      dict(answer="cl0", message=OVER, has=["reply 403"]),
      step("response_headers", headers=[[":status", "403"]]),
      dict(answer="cl1", message=OK, has=["resume response"])])

seed("p2-scope-prefix", "G08",
     [(K + "kuadrant/context.rs", 'task_id == scope_id || task_id.starts_with(&format!("{}.", scope_id))', "task_id.starts_with(scope_id)")],
     "an action set of more than ten actions, where action 1 is a call and action 10 uses its variable",
     "the reply of action 1 is visible to actions 10 to 19",
     [cfg(ONE, [aset([headers("request", "[['x-0', 'v']]"), grpc("svc0", on_reply=[headers("request", "[['x-ok', 'v']]", "r.overall_code == 1")])] +
                     [headers("request", "[['x-%d', 'v']]" % i) for i in range(2, 10)] +
                     [headers("request", "[['x-leak', 'v']]", "r.overall_code == 1", execution="sequential")])]),
      stream(), step("request_headers", action="Pause"),
      dict(answer="cl0", message=OK, has=["x-ok"], hasnt=["x-leak"]),
      step("request_body", buffer="", hasnt=["x-leak"]), step("response_headers", headers=[[":status", "200"]], hasnt=["x-leak"])])

seed("p3-requeued-complete", "G07",
     [(PIPE + "executor.rs", "                TaskOutcome::Requeued(tasks) => {\n                    self.task_queue.extend(tasks);",
       "                TaskOutcome::Requeued(tasks) => {\n                    self.completed_tasks.insert(task_id);\n                    self.task_queue.extend(tasks);")],
     "an action waiting for the request body with a sequential action after it",
     "the sequential action runs before the one it has to wait for",
     [cfg(TWO, [aset([grpc("svc0", domain="requestBodyJSON('/m')"), store("x.y", "requestBodyJSON('/m')"), grpc("svc1", var="q", seq=True)])]),
      stream(), step("request_headers", eos=False, hasnt=["call cl1"]),
      step("request_body", buffer='{"m":"v"}', hasnt=["call cl1"])])

seed("p4-queue-kept", "G04",
     [(PIPE + "executor.rs", "                TaskOutcome::Terminate(terminal_task) => {\n                    terminal_task.apply(&mut self.ctx);\n                    self.task_queue.clear();\n                    self.terminated = true;\n                    return ProcessOutcome::Terminated;",
       "                TaskOutcome::Terminate(terminal_task) => {\n                    terminal_task.apply(&mut self.ctx);\n                    self.terminated = true;\n                    return ProcessOutcome::Terminated;")],
     "an action waiting for the response ahead of an action that denies the request",
     "actions still waiting when the request is denied take effect on the local reply",
     [cfg(ONE, [aset([headers("response", "[['x-late', 'v']]"), deny(403)])]),
      stream(), step("request_headers", has=["reply 403"]),
      step("response_headers", headers=[[":status", "403"]], hasnt=["x-late"])])

seed("p5-empty-answer", "G01",
     [(PIPE + "tasks/dynamic.rs", "    if on_reply.is_empty() {", "    if on_reply.is_empty() || response_size == 0 {")],
     "a deny-mode service answering a call that has onReply actions with success and an empty message",
     "an empty answer is taken for an approval",
     [cfg(ONE, [aset([legacy("svc0", conditionalData=[dict(data=[dict(static=dict(key="a", value="1"))])])])]),
      stream(), step("request_headers", action="Pause", has=["call cl0"]),
      dict(answer="cl0", message="", has=["reply 500"], hasnt=["resume request"])])

seed("p6-hits", "G18",
     [(W + "filter/kuadrant_filter.rs", '                METRICS.hits().increment();\n', ''),
      (W + "filter/kuadrant_filter.rs", "                    PipelineState::InProgress(p) => {\n                        self.pipeline = Some(*p);\n                    }\n                    PipelineState::Completed { .. } => {\n                        self.pipeline = None;\n                    }\n                }\n                if self.should_pause() {\n                    trace!(\"on_http_request_headers: pause\");",
       "                    PipelineState::InProgress(p) => {\n                        METRICS.hits().increment();\n                        self.pipeline = Some(*p);\n                    }\n                    PipelineState::Completed { should_resume } => {\n                        if should_resume {\n                            METRICS.hits().increment();\n                        }\n                        self.pipeline = None;\n                    }\n                }\n                if self.should_pause() {\n                    trace!(\"on_http_request_headers: pause\");")],
     "a request denied before any call is made",
     "requests denied at once are not counted as hits",
     [cfg(ONE, [aset([deny(403)])]),
      stream(), step("request_headers", has=["reply 403", "metric kuadrant.hits 1"])])

seed("q1-undecodable", "G02",
     [(PIPE + "tasks/dynamic.rs", 'error!("Failed to get response CEL value: {e}");\n            return TaskOutcome::Failed;',
       'error!("Failed to get response CEL value: {e}");\n            cel::Value::Null')],
     "an allow-mode service whose answer cannot be decoded, with an onReply action that does not look at the answer",
     "the actions depending on the failed call are not skipped",
     [cfg(dict(svc0=svc(mode="allow")), [aset([grpc("svc0", on_reply=[headers("request", "[['x-a', 'v']]")])])]),
      stream(), step("request_headers", action="Pause"),
      dict(answer="cl0", message=[255, 255, 255], has=["resume request"], hasnt=["x-a"])])

seed("q2-nested-guard", "G03",
     [(PIPE + "blueprint.rs", "                        Action::compile_typed(typed_action, services, reply_id)\n",
       "                        Action::compile_typed(typed_action, services, reply_id).map(|nested| Action {\n                            is_guard: nested.is_guard && !typed.is_guard,\n                            ..nested\n                        })\n")],
     "a guarding call made from the reply of another guarding call",
     "the stream is resumed while the nested call is outstanding",
     [cfg(TWO, [aset([grpc("svc0", on_reply=[grpc("svc1", var="q", on_reply=[deny(403, "q.overall_code == 2")])])])]),
      stream(), step("request_headers", action="Pause"),
      dict(answer="cl0", message=OK, has=["call cl1"], hasnt=["resume request"]),
      dict(answer="cl1", message=OVER, has=["reply 403"])])

seed("q3-auth-domain", "G09",
     [(K + "configuration/legacy_translation.rs", '                format!("io.kuadrant.{}", domain)\n',
       '                format!("io.kuadrant.{}", domain.split_once(\'.\').map_or(domain.as_str(), |(first, _)| first))\n')],
     "configured request data whose key has more than two parts",
     "request data is sent to the authorization service under another name",
     [cfg(dict(auth=svc("auth")), [aset([legacy("auth")])], requestData={"metrics.labels.user": "request.method"}),
      stream(request__scheme="https", request__protocol="HTTP/1.1", request__time=5, destination__address="1.1.1.1:80", destination__port=80),
      step("request_headers", action="Pause", has=["io.kuadrant.metrics.labels"])])

seed("q4-label-prefix", "G10",
     [(K + "configuration/legacy_translation.rs", 'domain.is_empty() || domain == "metrics.labels"', 'domain.is_empty() || domain.starts_with("metrics.labels")')],
     "request data with a key below metrics.labels of more than one part",
     "the descriptor entry is sent under the last part of its key only",
     [cfg(ONE, [aset([legacy("svc0")])], requestData={"metrics.labels.a.user": "request.method"}),
      stream(), step("request_headers", action="Pause", has=["metrics.labels.a.user"])])

seed("q5-unchanged-header", "G11",
     [(PIPE + "tasks/headers.rs", "                            existing_headers.set(key, value);\n",
       "                            if existing_headers.get(&key) != Some(value.as_str()) {\n                                existing_headers.set(key, value);\n                            }\n")],
     "a request with the header twice, the first of them with the value to be set",
     "the other header of that name is left in place",
     [cfg(ONE, [aset([headers("request", "[['x-user', 'alice']]")])]),
      stream(hdrs=[["x-user", "alice"], ["x-user", "mallory"]]), step("request_headers", hasnt=["mallory"], has=["x-user"])])

seed("q6-bare-number", "G12",
     [(PIPE + "tasks/store/json_body_parser.rs", "        if let Some(ref mut parser) = self.parser {\n            parser\n                .finish()\n                .map_err(|e| AttributeError::Parse(format!(\"JSON finalize error: {e}\")))?;\n        }\n        self.finalize_extracted()?;\n        Ok(())",
       "        self.finalize_extracted()?;\n        if let Some(ref mut parser) = self.parser {\n            parser\n                .finish()\n                .map_err(|e| AttributeError::Parse(format!(\"JSON finalize error: {e}\")))?;\n        }\n        Ok(())")],
     "a body that is nothing but a number",
     "the value that is complete only at the end of the body is lost",
     [cfg(ONE, [aset([store("x.y", "requestBodyJSON('') + 1", export=True)])]),
      stream(), step("request_headers", eos=False), step("request_body", buffer='4', eos=False, hasnt=["export"]), step("request_body", buffer='42', eos=True, has=["export"])])

seed("q7-split-crlf", "G13",
     [(PIPE + "tasks/store/sse_body_parser/sse_line_parser.rs", '    tag("\\u{000D}\\u{000A}")(input)', '    nom::bytes::complete::tag("\\u{000D}\\u{000A}")(input)')],
     "an event stream with CRLF line ends that is cut between the two characters, in the middle of an event",
     "the event ends early: its remaining lines count as another event",
     [cfg(dict(svc0=svc("ratelimit-report")), [aset([legacy("svc0", conditionalData=[dict(data=[dict(expression=dict(key="n", value="responseBodyJSON('/n')"))])])])]),
      stream(), step("request_headers"), step("response_headers", headers=[[":status", "200"], ["content-type", "text/event-stream"]]),
      step("response_body", buffer='data: {"n":1,\r', eos=False), step("response_body", buffer='\ndata: "m":2}\r\n\r\ndata: [DONE]\r\n\r\n', eos=True, has=["call cl0"])])

seed("q8-pending-null", "G14",
     [(K + "kuadrant/cache.rs", "            Err(AttributeError::NotAvailable(_)) => Ok(AttributeState::Pending),\n            Err(e) => Err(e),\n        }\n    }\n\n    pub fn insert(",
       "            Err(AttributeError::NotAvailable(_)) if path.tokens().first() == Some(&\"metadata\") => {\n                Ok(AttributeState::Available(None))\n            }\n            Err(AttributeError::NotAvailable(_)) => Ok(AttributeState::Pending),\n            Err(e) => Err(e),\n        }\n    }\n\n    pub fn insert(")],
     "a metadata attribute the proxy cannot give yet when the request begins",
     "an action runs with null instead of waiting for the attribute",
     [cfg(ONE, [aset([headers("request", "[['x-m', metadata.user]]")])]),
      dict(withhold=["metadata.user"]), stream(metadata__user="bob"), step("request_headers", eos=False, hasnt=["x-m"]),
      dict(withhold=[]), step("request_body", buffer="", has=["x-m"])])

seed("q9-rejected-service", "G16",
     [("crates/wasm-shim/src/filter/root_context.rs", "        let factory = match PipelineFactory::try_from(config, &self.descriptor_manager) {",
       "        self.descriptor_manager\n            .set_descriptor_service(&descriptor_service);\n\n        let factory = match PipelineFactory::try_from(config, &self.descriptor_manager) {"),
      ("crates/wasm-shim/src/filter/root_context.rs", "        self.pipeline_factory = Arc::new(factory);\n        self.descriptor_manager\n            .set_descriptor_service(&descriptor_service);\n",
       "        self.pipeline_factory = Arc::new(factory);\n")],
     "a rejected configuration that names another descriptor service while descriptors are still missing",
     "the next fetch goes to the service of the rejected configuration",
     [dict(cfg(dict(dyn=svc("dynamic", endpoint="up", grpcService="a.S", grpcMethod="M")), [aset([grpc("dyn")])], descriptorService="good"), has=["call good"]),
      dict(answer="good", status=14),
      dict(configure=dict(services={}, actionSets=[aset([grpc("nope")])], descriptorService="bad"), action="false"),
      dict(tick=True, has=["call good"], hasnt=["call bad"])])

seed("q10-reset-all", "G16",
     [(K + "filter/descriptor_manager.rs", "                if matches!(state, DescriptorState::Pending(t) if *t == token_id) {\n                    *state = DescriptorState::Missing;",
       "                if matches!(state, DescriptorState::Pending(t) if *t <= token_id) {\n                    *state = DescriptorState::Missing;")],
     "two fetches outstanding at a time, the later of which is answered first",
     "descriptors that have been asked for are asked for again, and their answer is ignored",
     [dict(cfg(dict(dyn=svc("dynamic", endpoint="up", grpcService="a.S", grpcMethod="M")), [aset([grpc("dyn")])], descriptorService="d1"), has=["call d1"]),
      dict(cfg(dict(dyn=svc("dynamic", endpoint="up", grpcService="a.S", grpcMethod="M"), dyn2=svc("dynamic", endpoint="up2", grpcService="a.S", grpcMethod="M")), [aset([grpc("dyn"), grpc("dyn2")])], descriptorService="d2"), has=["call d2", "1=up2 2=a.S"], hasnt=["1=up 2=a.S"]),
      dict(answer="d2", status=14),
      dict(tick=True, has=["1=up2 2=a.S"], hasnt=["1=up 2=a.S"])])

seed("q12-request-id", "G19",
     [(K + "kuadrant/context.rs", "                if let Some(header_id) = headers.get(X_REQUEST_ID_HEADER) {",
       "                if let Some(header_id) = headers\n                    .get(X_REQUEST_ID_HEADER)\n                    .and_then(|id| Uuid::parse_str(id).ok())\n                {"),],
     "a request with an x-request-id that is a UUID in upper case, or not a UUID",
     "calls are made under another id than the request's own",
     [cfg(ONE, [aset([grpc("svc0")])]), stream(hdrs=[["x-request-id", "req-42"]]), step("request_headers", action="Pause", has=["x-request-id=req-42"])])

seed("q13-retry", "G20",
     [(PIPE + "tasks/store/sse_body_parser.rs", "                        if let Ok(val) = val.parse::<u64>() {\n                            self.event.retry = Some(Duration::from_millis(val))",
       "                        if let Ok(val) = val.parse::<f64>() {\n                            self.event.retry = Some(Duration::from_secs_f64(val / 1000.0))")],
     "an event stream with a retry field that is negative, infinite or not a number",
     "the module panics",
     [cfg(ONE, [aset([store("x.y", "responseBodyJSON('/n')")])]),
      stream(), step("request_headers"), step("response_headers", headers=[[":status", "200"], ["content-type", "text/event-stream"]]),
      step("response_body", buffer='retry: -1\ndata: {}\n\n', eos=False, hasnt=["panic"])])

seed("q14-ascii-trim", "G21",
     [(K + "data/cel/strings.rs", "    Ok(this.trim().into())", "    Ok(this.trim_matches(|c: char| c.is_ascii_whitespace()).into())")],
     "trim() of a text that begins or ends with white space outside ASCII, such as a non-breaking space, or with a vertical tab",
     "the white space is left in place",
     [cfg(ONE, [aset([headers("request", "[['x-v', '<' + request.path.trim() + '>']]")])]),
      stream(request__path=" \u00a0\u2003/a\u000b\u3000"), step("request_headers", has=["</a>"])])

memo = """        let hostname = self.get_hostname(ctx)?;
        ctx.set_hostname(hostname.clone());
"""
seed("q15-memo-route", "G22",
     [(PIPE + "factory.rs", "    fallback_blueprint: Option<Arc<Blueprint>>,\n}\n\n#[derive(Debug)]", "    fallback_blueprint: Option<Arc<Blueprint>>,\n    last_match: std::sync::Mutex<Option<(String, Arc<Blueprint>)>>,\n}\n\n#[derive(Debug)]"),
      (PIPE + "factory.rs", "            fallback_blueprint: None,\n", "            fallback_blueprint: None,\n            last_match: Default::default(),\n"),
      (PIPE + "factory.rs", "            fallback_blueprint: dev_mode_action.map(|action| {", "            last_match: Default::default(),\n            fallback_blueprint: dev_mode_action.map(|action| {"),
      (PIPE + "factory.rs", memo, memo + """
        if let Ok(last) = self.last_match.lock() {
            if let Some((host, blueprint)) = last.as_ref() {
                if *host == hostname {
                    return Ok(Some(Arc::clone(blueprint)));
                }
            }
        }
"""),
      (PIPE + "factory.rs", "                return Ok(Some(Arc::clone(blueprint)));\n            }\n        }\n\n        debug!", "                if candidates.len() == 1 {\n                    if let Ok(mut last) = self.last_match.lock() {\n                        *last = Some((hostname, Arc::clone(blueprint)));\n                    }\n                }\n                return Ok(Some(Arc::clone(blueprint)));\n            }\n        }\n\n        debug!")],
     "a host with a single action set with route predicates: a request that matches it followed by one that does not",
     "the second request is governed by the action set of the first",
     [cfg(ONE, [aset([deny(403)], preds=["request.method == 'POST'"])]),
      stream("s1", request__method="POST"), step("request_headers", "s1", has=["reply 403"]),
      stream("s2", request__method="GET"), step("request_headers", "s2", hasnt=["reply 403"], has=["metric kuadrant.misses"])])

seed("q16-drop-batch", "G23",
     [(K + "tracing/processor.rs", "            state.queue.pop_front();", "            let batch = (self.max_buffer_size / 10).max(1);\n            state.queue.drain(..batch);")],
     "more than a hundred finished spans between two exports",
     "ten spans are given up at a time, the next export has fewer than a hundred",
     [cfg(dict(svc0=svc(), otel=dict(type="tracing", endpoint="otel")), [aset([grpc("svc0")])],
          observability=dict(httpHeaderIdentifier="x-id", defaultLevel="INFO", tracing=dict(service="otel"))),
      dict(repeat=60, steps=[stream("t%"), step("request_headers", "t%"), step("destroy", "t%")]),
      stream("s1"), step("request_headers"), dict(answer="cl0", message=OK), step("response_headers", headers=[[":status", "200"]], has=["call otel"], times={"5=kuadrant_filter": 50})])

seed("q17-host-cache", "G24",
     [(PIPE + "factory.rs", "    fallback_blueprint: Option<Arc<Blueprint>>,\n}\n\n#[derive(Debug)]", "    fallback_blueprint: Option<Arc<Blueprint>>,\n    known_hosts: std::sync::Mutex<HashMap<String, Vec<Arc<Blueprint>>>>,\n}\n\n#[derive(Debug)]"),
      (PIPE + "factory.rs", "            fallback_blueprint: None,\n", "            fallback_blueprint: None,\n            known_hosts: Default::default(),\n"),
      (PIPE + "factory.rs", "            fallback_blueprint: dev_mode_action.map(|action| {", "            known_hosts: Default::default(),\n            fallback_blueprint: dev_mode_action.map(|action| {"),
      (PIPE + "factory.rs", "        for blueprint in candidates {", "        let candidates = self\n            .known_hosts\n            .lock()\n            .unwrap_or_else(|e| e.into_inner())\n            .entry(hostname.clone())\n            .or_insert_with(|| candidates.clone())\n            .clone();\n        for blueprint in &candidates {"),],
     "a wildcard hostname and requests for ever new hosts",
     "every host seen is kept for as long as the configuration is in force",
     [cfg(ONE, [aset([deny(403)], hosts=["*.a.com"])]),
      dict(repeat=50, steps=[stream("t", host="warm.a.com"), step("request_headers", "t", has=["reply 403"]), step("destroy", "t")]),
      dict(memory=100000000),
      dict(repeat=400, steps=[stream("t", host="host-%-" + 400 * "x" + ".a.com"), step("request_headers", "t", has=["reply 403"]), step("destroy", "t")]),
      dict(memory=100000, action="less")])


seed("q11-default-dropped", "G17",
     [(K + "services/dynamic/converters.rs", "            if let Some(val) = nested_struct.field_value(field.name()) {\n                let proto_value = Self::cel_val_to_proto_value(val, &field)?;\n",
       "            if let Some(val) = nested_struct.field_value(field.name()) {\n                let proto_value = Self::cel_val_to_proto_value(val, &field)?;\n                // proto3 has no use for a default value on the wire\n                if !field.is_list() && !field.is_map() && proto_value == ProtoValue::default_value_for_field(&field) {\n                    continue;\n                }\n")],
     "a nested message with an optional field, or a field of a oneof, that is given its type's default value",
     "the service finds the field absent",
     [cfg(dict(auth=svc("auth")), [aset([dict(type="grpc", service="auth", var="r", predicate="true", isGuard=True, terminal=False, onReply=[],
          messageBuilder="envoy.service.auth.v3.CheckRequest { attributes: envoy.service.auth.v3.AttributeContext { source: envoy.service.auth.v3.AttributeContext.Peer { address: envoy.config.core.v3.Address { socket_address: envoy.config.core.v3.SocketAddress { address: '1.1.1.1', port_value: 0u } } } } }")])]),
      stream(), step("request_headers", action="Pause", has=["3=0"])])

seed("q18-same-again", "G15",
     [(W + "filter/root_context.rs", "        match serde_json::from_slice::<PluginConfiguration>(&configuration) {",
       "        // the host may send the same configuration again\n        if self.last_config.as_ref() == Some(&configuration) {\n            return true;\n        }\n        self.last_config = Some(configuration.clone());\n        match serde_json::from_slice::<PluginConfiguration>(&configuration) {"),
      (W + "filter/root_context.rs", "    tick_enabled: bool,\n", "    tick_enabled: bool,\n    last_config: Option<Vec<u8>>,\n"),
      (W + "filter/root_context.rs", "            tick_enabled: false,\n", "            tick_enabled: false,\n            last_config: None,\n")],
     "a configuration that is rejected is received again",
     "the rejected configuration is reported as accepted the second time",
     [cfg(ONE, [aset([deny(403)])]),
      dict(configure=dict(services={}, actionSets=[aset([grpc("nope")])]), action="false"),
      dict(configure=dict(services={}, actionSets=[aset([grpc("nope")])]), action="false")])


seed("s1-level-cache", "G25",
     [(W + "filter/root_context.rs", "        kuadrant_filter::tracing::set_log_level(crate::wasm_host::current_log_filter());\n",
       "        // reloading the filter is not for free\n        let level = crate::wasm_host::current_log_filter();\n        if self.log_level.replace(Some(level)) != Some(level) {\n            kuadrant_filter::tracing::set_log_level(level);\n        }\n"),
      (W + "filter/root_context.rs", "    tick_enabled: bool,\n", "    tick_enabled: bool,\n    log_level: std::cell::Cell<Option<tracing_subscriber::filter::LevelFilter>>,\n"),
      (W + "filter/root_context.rs", "            tick_enabled: false,\n", "            tick_enabled: false,\n            log_level: Default::default(),\n")],
     "a configuration received while the log level is another one than at the requests before and after it",
     "the log level stays that of the time of the configuration: messages are missing, or there are too many",
     [dict(log_level="Debug"), cfg(ONE, [aset([deny(403)])]),
      stream(), step("request_headers", has=["log Debug"]),
      dict(log_level="Error"), cfg(ONE, [aset([deny(401)])]),
      dict(log_level="Debug"),
      stream("s2"), step("request_headers", "s2", has=["reply 401", "log Debug"])])


seed("t1-exported-terminal", "G26",
     [(PIPE + "tasks/store.rs", "                        error!(\"Failed to store attribute {}: {:?}\", self.path, e);\n                        return TaskOutcome::Failed;\n                    }\n",
       "                        error!(\"Failed to store attribute {}: {:?}\", self.path, e);\n                        return TaskOutcome::Failed;\n                    }\n                    ctx.values.store(self.path.clone(), value);\n                    return TaskOutcome::Done;\n")],
     "a store action marked terminal whose value is exported to the host",
     "the actions after it are evaluated",
     [cfg(ONE, [aset([dict(store("p", "'x'", export=True), terminal=True), grpc("svc0")])]),
      stream(), step("request_headers", has=["export kuadrant.p"], hasnt=["call cl0"])])

seed("t2-parse-each-chunk", "G27",
     [(PIPE + "tasks/token_usage.rs", "        self.buffer.append(&mut bytes);\n    }\n\n    fn extract_property(&mut self, prop: &str) -> Option<Value> {\n        if self.parsed_json.is_none() {",
       "        self.buffer.append(&mut bytes);\n        // the document may be complete by now\n        self.parsed_json = serde_json::from_slice(&self.buffer).ok();\n    }\n\n    fn extract_property(&mut self, prop: &str) -> Option<Value> {\n        if self.parsed_json.is_none() {")],
     "a long JSON body that comes in many chunks",
     "what was received so far is parsed again for every chunk",
     [cfg(dict(svc0=svc("ratelimit-report")), [aset([legacy("svc0", conditionalData=[dict(data=[dict(expression=dict(key="n", value="responseBodyJSON('/n')"))])])])]),
      stream(), step("request_headers"), step("response_headers", headers=[[":status", "200"], ["content-type", "application/json"]]),
      step("response_body", buffer='{"x":"', eos=False),
      dict(repeat=8000, steps=[step("response_body", buffer="x" * 2000, eos=False)]),
      step("response_body", buffer='","n":7}', eos=True, has=["call cl0"])])


seed("t3-null-entry", "G28",
     [(K + "services/dynamic/converters.rs", "                    fields.insert(key_str, Self::cel_to_prost_value(v)?);",
       "                    // absent is all the same to those who read it\n                    if matches!(v, Value::Null) {\n                        continue;\n                    }\n                    fields.insert(key_str, Self::cel_to_prost_value(v)?);")],
     "an exported value with a map that has a null entry",
     "the entry is missing from what the host gets",
     [cfg(ONE, [aset([store("p", "[{'a': null, 'b': 1}]", export=True)])]),
      stream(), step("request_headers", has=["export kuadrant.p {6={1={5={1={1=a"])])


seed("t4-one-per-cluster", "G29",
     [(PIPE + "factory.rs", "            .services\n            .drain()\n            .map(|(name, service_config)| {\n                let instance = ServiceInstance::from_config(service_config, descriptor_manager)\n                    .map_err(|e| CompileError::ServiceCreationFailed(e.to_string()))?;\n                Ok((name, instance))",
       "            .services\n            .drain()\n            .collect::<std::collections::BTreeMap<_, _>>()\n            .into_iter()\n            .map(|(name, service_config)| {\n                // services that are the same cluster spoken to in the same way are one\n                let key = format!(\"{:?} {} {:?} {:?}\", service_config.service_type, service_config.endpoint, service_config.grpc_service, service_config.grpc_method);\n                let instance = match made.get(&key) {\n                    Some(instance) => Clone::clone(instance),\n                    None => ServiceInstance::from_config(service_config, descriptor_manager)\n                        .map_err(|e| CompileError::ServiceCreationFailed(e.to_string()))?,\n                };\n                made.entry(key).or_insert_with(|| instance.clone());\n                Ok((name, instance))"),
      (PIPE + "factory.rs", "        let services: HashMap<String, ServiceInstance> = config\n", "        let mut made: HashMap<String, ServiceInstance> = HashMap::new();\n        let services: HashMap<String, ServiceInstance> = config\n")],
     "a second service of another failure mode for the same cluster, of a name sorting before the one in use",
     "the settings of the service first by name are those of all of its cluster",
     [cfg(dict(a=svc(mode="deny"), svc0=svc(mode="allow")), [aset([grpc("svc0"), headers("request", "[['x-on', 'v']]", execution="sequential")])]),
      stream(), step("request_headers", action="Pause", has=["call cl0"]),
      dict(answer="cl0", status=14, has=["x-on"], hasnt=["reply"])])


seed("u1-reserved-once", "G28",
     [(K + "kuadrant/context.rs", "                *entry.get_mut() -= 1;\n                if *entry.get() == 0 {\n                    entry.remove();\n                }\n            }\n            Entry::Vacant(_) => {\n                error!(",
       "                entry.remove();\n            }\n            Entry::Vacant(_) => {\n                debug!(")],
     "two store actions for one path, the first of which doesn't apply, the second waiting for the body, and an expression that refers to the path",
     "the path counts as never to be saved once the first one is over, and the expression fails instead of waiting",
     [cfg(ONE, [aset([store("p.v", "'never'", "request.method == 'PUT'"), store("p.v", "requestBodyJSON('/m')"), store("p.w", "p.v", export=True)])]),
      stream(), step("request_headers", eos=False), step("request_body", buffer='{"m":"a"}', eos=True, has=["export kuadrant.p.w"])])
