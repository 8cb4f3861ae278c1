M = 'src/broker/messaging/messaging_service.rs'
R = 'src/broker/session/session_repository.rs'
WHILE = '''        while let Some(op) = rx.recv().await {
            match op {'''
SENDERS = '''        let mut senders = Vec::new();

        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {
            for c in &client_ids {
                match self.sessions.get(c) {
                    Some(session) => {
                        senders.push(session.sender().clone());
                    }
                    None => {
                        warn!(
                            "Tried to send message, but session for client {:?} not found",
                            c
                        );
                    }
                }
            }
        }

        senders
'''
PUB = '''        if let Some(client_ids) = self.subscriptions.subscribed_clients(&message.topic) {
            for c in &client_ids {
                match self.sessions.get(c) {
                    Some(session) => {
                        // subscriptions are granted QoS 0
                        let message = publish.message.clone();
                        let delivery = PublishPacket::new(
                            message.topic,
                            message.payload,
                            QoS::AtMostOnce,
                            false,
                            None,
                            false,
                        );
                        let event = ServerEvent::ControlPacket(Publish(delivery));
                        if let Err(e) = session.sender().send(event).await {
                            debug!("Client {:?} is gone: {}", c, &e);
                        }
                    }
                    None => {
                        warn!(
                            "Tried to send message, but session for client {:?} not found",
                            c
                        );
                    }
                }
            }
        }
'''
LOST = '''        self.subscriptions.connections_lost(client_id);

        self.sessions.delete(client_id)
'''
DISC = '''        self.subscriptions.disconnected(client_id);

        self.sessions.delete(client_id)
'''
UN = '''                MessagingOperation::Unsubscribe { client_id, topics, resp } => {
                    self.unsubscribe(&client_id, &topics);
                    let _ = resp.send(());
                }
'''
SUB = '''                MessagingOperation::Subscribe { client_id, subscription, resp } => {
                    let result = self.subscribe(&client_id, &subscription);
                    let _ = resp.send(result);
                }
'''
CL = '''                MessagingOperation::ConnectionLost { client_id, resp } => {
                    let result = self.connection_lost(&client_id);
                    let _ = resp.send(result);
                }
'''
INS = '''                MessagingOperation::SessionInsert { session, resp } => {
                    self.session_insert(session);
                    let _ = resp.send(());
                }
'''
STP = '''                MessagingOperation::SendersToPublish { topic, resp } => {
                    let result = self.senders_to_publish(&topic);
                    let _ = resp.send(result);
                }
'''
EX = '''                MessagingOperation::SessionExists { client_id, resp } => {
                    let result = self.session_exists(&client_id);
                    let _ = resp.send(result);
                }
'''

same('loop-match', (M, WHILE, '''        loop {
            let op = match rx.recv().await {
                Some(op) => op,
                None => break,
            };
            match op {'''))
same('loop-handle', (M, WHILE, '''        while let Some(op) = rx.recv().await {
            self.handle(op).await;
        }
        debug!("Stopped Messaging Manager");
    }

    async fn handle(&mut self, op: MessagingOperation) {
        {
            match op {'''), (M, '''                    let _ = resp.send(result);
                }
            }
        }
        debug!("Stopped Messaging Manager");
    }
''', '''                    let _ = resp.send(result);
                }
            }
        }
    }
'''))
same('reply-if-err', (M, SUB, '''                MessagingOperation::Subscribe { client_id, subscription, resp } => {
                    if resp.send(self.subscribe(&client_id, &subscription)).is_err() {
                        debug!("Nobody waits for the answer");
                    }
                }
'''))
same('reply-ok', (M, SUB, SUB.replace('let _ = resp.send(result);', 'resp.send(result).ok();')))
same('merge-arms', (M, CL, ''), (M, '''                MessagingOperation::ConnectionDisconnected { client_id, resp } => {
                    let result = self.disconnect(&client_id);''', '''                MessagingOperation::ConnectionLost { client_id, resp }
                | MessagingOperation::ConnectionDisconnected { client_id, resp } => {
                    let result = self.disconnect(&client_id);'''))
same('inline-methods', (M, EX, EX.replace('self.session_exists(', 'self.sessions.exists(')), (M, UN, UN.replace('self.unsubscribe(', 'self.subscriptions.unsubscribe(')))
same('senders-filter-map', (M, SENDERS, '''        self.subscriptions
            .subscribed_clients(topic)
            .unwrap_or_default()
            .iter()
            .filter_map(|c| self.sessions.get(c))
            .map(|session| session.sender().clone())
            .collect()
'''))
same('senders-filter-map-2', (M, SENDERS, '''        match self.subscriptions.subscribed_clients(topic) {
            Some(ids) => ids
                .iter()
                .filter_map(|c| {
                    let session = self.sessions.get(c);
                    if session.is_none() {
                        warn!("Session for client {:?} not found", c);
                    }
                    session.map(|s| s.sender().clone())
                })
                .collect(),
            None => Vec::new(),
        }
'''))
same('senders-let-else', (M, SENDERS, '''        let Some(client_ids) = self.subscriptions.subscribed_clients(topic) else {
            return vec![];
        };
        let mut senders = Vec::with_capacity(client_ids.len());
        for c in client_ids {
            if let Some(session) = self.sessions.get(&c) {
                senders.push(session.sender().clone());
            } else {
                warn!("Session for client {:?} not found", c);
            }
        }
        senders
'''))
same('senders-continue', (M, SENDERS, '''        let mut senders = Vec::new();
        let client_ids = self.subscriptions.subscribed_clients(topic).unwrap_or_else(Vec::new);
        for c in client_ids.iter() {
            let session = match self.sessions.get(c) {
                Some(s) => s,
                None => continue,
            };
            senders.push(session.sender().clone());
        }
        senders
'''))
same('senders-for-each', (M, SENDERS, '''        let mut senders = Vec::new();
        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {
            client_ids.iter().for_each(|c| match self.sessions.get(c) {
                Some(session) => senders.push(session.sender().clone()),
                None => warn!("Session for client {:?} not found", c),
            });
        }
        senders
'''))
same('senders-flatten', (M, SENDERS, '''        let mut senders = Vec::new();
        for c in self.subscriptions.subscribed_clients(topic).into_iter().flatten() {
            if let Some(session) = self.sessions.get(&c) {
                senders.push(session.sender().clone());
            }
        }
        senders
'''))
same('senders-extend', (M, SENDERS, '''        let mut senders = Vec::new();
        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {
            senders.extend(client_ids.iter().filter_map(|c| self.sessions.get(c)).map(|s| s.sender().to_owned()));
        }
        senders
'''))
same('senders-entry-helper', (M, SENDERS, SENDERS.replace('''match self.sessions.get(c) {
                    Some(session) => {
                        senders.push(session.sender().clone());
                    }''', '''match self.sender_of(c) {
                    Some(sender) => {
                        senders.push(sender);
                    }''')), (M, '    pub fn senders_to_publish(', '''    fn sender_of(&self, client_id: &ClientId) -> Option<mpsc::Sender<ServerEvent>> {
        self.sessions.get(client_id).map(|session| session.sender().clone())
    }

    pub fn senders_to_publish('''))
same('publish-via-senders', (M, PUB, '''        for sender in self.senders_to_publish(&message.topic) {
            let message = publish.message.clone();
            let delivery = PublishPacket::new(message.topic, message.payload, QoS::AtMostOnce, false, None, false);
            if let Err(e) = sender.send(ServerEvent::ControlPacket(Publish(delivery))).await {
                debug!("Client is gone: {}", &e);
            }
        }
'''))
same('lost-order', (M, LOST, '''        let session = self.sessions.delete(client_id);
        self.subscriptions.connections_lost(client_id);
        session
'''))
same('disc-shares', (M, DISC, '''        self.connection_lost(client_id)
'''))
same('repo-exists-get', (R, '        self.sessions.contains_key(client_id)\n', '        self.sessions.get(client_id).is_some()\n'))
same('repo-insert-local', (R, '        self.sessions.insert(session.client_id().clone(), session);\n', '''        let client_id = session.client_id().to_owned();
        let previous = self.sessions.insert(client_id, session);
        drop(previous);
'''))
same('repo-delete-entry', (R, '        self.sessions.remove(client_id)\n', '''        match self.sessions.remove_entry(client_id) {
            Some((_, session)) => Some(session),
            None => None,
        }
'''))
same('op-if-let', (M, '                MessagingOperation::SessionCount { resp } => {\n                    let result = self.session_count();\n                    let _ = resp.send(result);', '                MessagingOperation::SessionCount { resp } => {\n                    let _ = resp.send(self.sessions.count());'))

bug('b-reply-first', 'R02 L05', (M, INS, '''                MessagingOperation::SessionInsert { session, resp } => {
                    let _ = resp.send(());
                    self.session_insert(session);
                }
'''))
bug('b-reply-spawn', 'R02', (M, STP, '''                MessagingOperation::SendersToPublish { topic, resp } => {
                    let result = self.senders_to_publish(&topic);
                    tokio::spawn(async move { let _ = resp.send(result); });
                }
'''))
bug('b-reply-unwrap', 'R01 R02', (M, STP, STP.replace('let _ = resp.send(result);', 'resp.send(result).unwrap();')))
bug('b-reply-skip', 'R01 R02', (M, STP, '''                MessagingOperation::SendersToPublish { topic, resp } => {
                    let result = self.senders_to_publish(&topic);
                    if !result.is_empty() {
                        let _ = resp.send(result);
                    }
                }
'''))
bug('b-lost-keeps-subs', 'L03', (M, LOST, '''        self.sessions.delete(client_id)
'''))
bug('b-disc-subs-if-session', 'L03', (M, DISC, '''        let session = self.sessions.delete(client_id)?;
        self.subscriptions.disconnected(client_id);
        Some(session)
'''))
bug('b-disc-clean-only', 'L03', (M, DISC, '''        if self.sessions.count() > 1 {
            self.subscriptions.disconnected(client_id);
        }
        self.sessions.delete(client_id)
'''))
bug('b-exists-true', 'M01', (M, '        self.sessions.exists(client_id)\n', '        self.sessions.exists(client_id) || self.sessions.count() > 0\n'))
bug('b-senders-limit', 'M04', (M, SENDERS, SENDERS.replace('for c in &client_ids {', 'for c in client_ids.iter().take(1024) {')))
bug('b-senders-break', 'M04', (M, SENDERS, SENDERS.replace('''                            c
                        );
''', '''                            c
                        );
                        break;
''')))
bug('b-senders-topic', 'M04 M02', (M, SENDERS, SENDERS.replace('subscribed_clients(topic)', 'subscribed_clients(&topic.to_lowercase())')))
bug('b-senders-dup', 'M04', (M, SENDERS, SENDERS.replace('''                        senders.push(session.sender().clone());
''', '''                        senders.push(session.sender().clone());
                        if client_ids.len() == 1 && topic.starts_with('$') {
                            senders.push(session.sender().clone());
                        }
''')))
bug('b-senders-capacity', 'M04', (M, SENDERS, SENDERS.replace('Some(session) => {\n                        senders', 'Some(session) if session.sender().capacity() == 0 => {}\n                    Some(session) => {\n                        senders')))
bug('b-un-first', 'M03 M01', (M, UN, UN.replace('self.unsubscribe(&client_id, &topics);', 'self.unsubscribe(&client_id, &topics[..topics.len().min(64)].to_vec());')))
bug('b-un-lost', 'M03', (M, UN, UN.replace('self.unsubscribe(&client_id, &topics);', '''self.unsubscribe(&client_id, &topics);
                    if topics.len() > 8 {
                        self.subscriptions.disconnected(&client_id);
                    }''')))
bug('b-sub-needs-session', 'M01', (M, SUB, SUB.replace('self.subscribe(&client_id, &subscription);', '''if self.session_count() > 4096 {
                        SubAckReturnCode::SuccessQoS0
                    } else {
                        self.subscribe(&client_id, &subscription)
                    };''')))
bug('b-loop-stop', 'R01 R02 R04', (M, WHILE, '''        while let Some(op) = rx.recv().await {
            if matches!(&op, MessagingOperation::SessionCount { .. }) && self.session_count() == 0 {
                break;
            }
            match op {'''))
bug('b-stp-await', 'R03', (M, STP, '''                MessagingOperation::SendersToPublish { topic, resp } => {
                    let result = self.senders_to_publish(&topic);
                    for s in &result {
                        let _ = s.reserve().await;
                    }
                    let _ = resp.send(result);
                }
'''))

PUBVIA = '''        let senders = self.senders_to_publish(&message.topic);
        for sender in %s {
            let message = publish.message.clone();
            let delivery = PublishPacket::new(message.topic, message.payload, QoS::AtMostOnce, false, None, false);
            let _ = sender.send(ServerEvent::ControlPacket(Publish(delivery))).await;
        }
'''
same('via-ref', (M, PUB, PUBVIA % '&senders'))
same('via-into', (M, PUB, PUBVIA % 'senders'))
bug('b-via-skip', 'M04', (M, PUB, PUBVIA % 'senders.iter().skip(senders.len() / 100)'))
bug('b-via-none', 'M04', (M, PUB, PUBVIA % 'senders.iter().take(64)'))
bug('b-via-both', 'M04', (M, PUB, PUBVIA % '&senders' + PUBVIA % 'senders'))
