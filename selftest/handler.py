
H = 'src/broker/client_packet_handler.py'.replace('.py', '.rs')
SEND = '''async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
    if let Err(e) = sender.send(event).await {
        debug!("Client is gone: {}", &e);
    }
}'''
LOOP = '''                 maybe_event = self.rx.recv() => {
                    if let Some(event) = maybe_event {
                        trace!("Got event {:?}", &event);

                        match event {

                            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
                            ClientEvent::ControlPacket(client_id, packet, tx) => {
                                self.on_packet(client_id, packet, tx).await;
                            }
                            ClientEvent::Disconnected(_client_id) => {}
                            ClientEvent::ConnectionLost(client_id, tx) => {
                                if self.is_current(&client_id, &tx) {
                                    self.on_connection_lost(client_id).await;
                                }
                            }
                        }
                    }
                 }
'''
CUR = '''        match self.connections.get(client_id) {
            Some(current) => current.same_channel(tx),
            None => false,
        }'''
DISP = '''        match packet {
            // ControlPacket::Connect(c) => {
            //     self.on_connect(action.response, c, &mut sessions).await
            // }
            // ControlPacket::ConnAck(_) => {}
            ControlPacket::Publish(p) => self.on_publish(tx, p, client_id).await,
            // ControlPacket::PubAck(_) => {}
            // ControlPacket::PubRec(_) => {}
            // ControlPacket::PubRel(_) => {}
            // ControlPacket::PubComp(_) => {}
            ControlPacket::Subscribe(p) => self.on_subscribe(tx, p, &client_id).await,
            // ControlPacket::SubAck(_) => {}
            ControlPacket::Unsubscribe(p) => self.on_unsubscribe(tx, p, &client_id).await,
            // ControlPacket::UnsubAck(_) => {}
            ControlPacket::PingReq => self.on_ping_req(tx, &client_id).await,
            // ControlPacket::PingResp() => {}
            ControlPacket::Disconnect(_) => self.on_disconnect(client_id).await,
            _ => error!("Packet {} not supported", &packet),
        };'''
AUTH = '''        if let Some(user_name) = packet.user_name {
            let result = match &packet.password {
                Some(password) => self.identity_provider.authenticate(&user_name, password),
                None => Err(AuthenticationError::InvalidPassword),
            };
            if let Err(e) = result {
                info!("Client {} authentication error: {:?}", &user_name, &e);

                let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
                send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
                send(&sender, ServerEvent::Disconnect).await;
                return;
            }
        };
'''
PREV = '''        if let Some(previous) = self.connections.remove(&client_id) {
            info!("Client {:?} connected again", &client_id);
            send(&previous, ServerEvent::Disconnect).await;
            self.remove_session(client_id.clone()).await;
        }
'''
INS = '''        let (insert_tx, insert_rx) = oneshot::channel();
        let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
        self.messaging_tx.send(op).await.unwrap();
        insert_rx.await.unwrap();
        self.connections.insert(client_id, sender.clone());
'''
ACK = '''        let session_present = false; // sessions are not resumed
        let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);

        send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
'''
FAN = '''        for sender in senders_to_publish {
            // subscriptions are granted QoS 0
            let message = publish.message.clone();
            let delivery = PublishPacket::new(
                message.topic,
                message.payload,
                QoS::AtMostOnce,
                false,
                None,
                false,
            );
            let event = ServerEvent::ControlPacket(Publish(delivery));
            send(&sender, event).await;
        }
'''
ASK = '''        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::SendersToPublish { topic: publish.message.topic.clone(), resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let senders_to_publish = rx.await.unwrap();
'''
SUB = '''        let mut return_codes = Vec::new();

        for subscription in subscribe.subscriptions {
            // each subscription request must be handled as a separate subscribe packet

            let (tx, rx) = oneshot::channel();
            let op = MessagingOperation::Subscribe { client_id: client_id.clone(), subscription, resp: tx };

            self.messaging_tx.send(op).await.unwrap();
            let return_code = rx.await.unwrap();

            return_codes.push(return_code);
        }

        let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
        send(&sender, ServerEvent::ControlPacket(SubAck(sub_ack))).await;
'''
DISC = '''        self.connections.remove(&client_id);

        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::ConnectionDisconnected { client_id, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let maybe_session = rx.await.unwrap();
'''
LOST = '''        self.connections.remove(&client_id);
        self.remove_session(client_id).await;
'''
UNSUB = '''        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::Unsubscribe { client_id: client_id.clone(), topics: unsubscribe.topics, resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let _ = rx.await.unwrap();

        let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
        send(&sender, ServerEvent::ControlPacket(UnsubAck(unsub_ack))).await;
'''
PING = '''        if session_present {
            send(&sender, ServerEvent::ControlPacket(PingResp)).await;
        } else {
            error!(
                "Received PING from not existing session with client id {}",
                client_id
            );
            send(&sender, ServerEvent::Disconnect).await;
        }
'''
RUN = '''    pub async fn run(mut self) {
        loop {
            select! {'''

# ---- the event loop
same('loop-match-option', (H, LOOP, LOOP.replace('if let Some(event) = maybe_event {', 'match maybe_event { None => {} Some(event) => {').replace('''                        }
                    }
                 }
''', '''                        }
                    } }
                 }
''')))
same('loop-on-event', (H, LOOP, '''                 maybe_event = self.rx.recv() => {
                    if let Some(event) = maybe_event {
                        self.on_event(event).await;
                    }
                 }
'''), (H, '''    /// Whether this is the connection that was''', '''    async fn on_event(&mut self, event: ClientEvent) {
        trace!("Got event {:?}", &event);
        match event {
            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
            ClientEvent::ControlPacket(client_id, packet, tx) => self.on_packet(client_id, packet, tx).await,
            ClientEvent::Disconnected(_) => (),
            ClientEvent::ConnectionLost(client_id, tx) if self.is_current(&client_id, &tx) => {
                self.on_connection_lost(client_id).await
            }
            ClientEvent::ConnectionLost(client_id, _) => {
                debug!("Old connection of client {:?} ended", &client_id);
            }
        }
    }

    /// Whether this is the connection that was'''))
same('loop-some-pattern', (H, LOOP, LOOP.replace('maybe_event = self.rx.recv() => {\n                    if let Some(event) = maybe_event {', 'Some(event) = self.rx.recv() => {\n                    {')))
same('loop-biased', (H, '''            select! {
                _ = self.ctrl_c_rx.recv() => {''', '''            select! {
                biased;
                _ = self.ctrl_c_rx.recv() => {'''))
same('loop-return', (H, '''                    debug!("Stopping manager...");
                    break;''', '''                    debug!("Stopped Manager");
                    return;'''))
same('loop-flag', (H, RUN, '''    pub async fn run(mut self) {
        let mut running = true;
        while running {
            select! {'''), (H, '''                    debug!("Stopping manager...");
                    break;''', '''                    debug!("Stopping manager...");
                    running = false;'''))
same('loop-destructure-state', (H, LOOP, LOOP.replace('self.on_packet(client_id, packet, tx).await;', '''if self.is_current(&client_id, &tx) {
                                    self.on_packet(client_id, packet, tx).await;
                                } else {
                                    debug!("Ignored packet of client {:?}", &client_id);
                                }''')), (H, '''        if !self.is_current(&client_id, &tx) {
            debug!("Ignored packet of client {:?}, which is not connected", &client_id);
            return;
        }

''', ''))
# ---- the current connection
same('cur-map-or', (H, CUR, '''        self.connections.get(client_id).map_or(false, |current| current.same_channel(tx))'''))
same('cur-map-unwrap', (H, CUR, '''        self.connections.get(client_id).map(|c| c.same_channel(tx)).unwrap_or(false)'''))
same('cur-matches', (H, CUR, '''        matches!(self.connections.get(client_id), Some(current) if current.same_channel(tx))'''))
same('cur-if-let', (H, CUR, '''        if let Some(current) = self.connections.get(client_id) {
            return current.same_channel(tx);
        }
        false'''))
same('cur-is-some-and', (H, CUR, '''        self.connections.get(client_id).is_some_and(|current| tx.same_channel(current))'''))
same('cur-contains', (H, CUR, '''        self.connections.contains_key(client_id) && self.connections[client_id].same_channel(tx)'''))
same('cur-inline', (H, '''        if !self.is_current(&client_id, &tx) {
            debug!("Ignored packet''', '''        let known = self.connections.get(&client_id);
        if known.is_none() || !known.unwrap().same_channel(&tx) {
            debug!("Ignored packet'''))
# ---- packets
same('disp-wrap', (H, DISP, '''        if let ControlPacket::Publish(publish) = packet {
            self.on_publish(tx, publish, client_id).await;
            return;
        }
        match packet {
            ControlPacket::Subscribe(p) => self.on_subscribe(tx, p, &client_id).await,
            ControlPacket::Unsubscribe(p) => self.on_unsubscribe(tx, p, &client_id).await,
            ControlPacket::PingReq => self.on_ping_req(tx, &client_id).await,
            ControlPacket::Disconnect(_) => self.on_disconnect(client_id).await,
            other => error!("Packet {} not supported", &other),
        }'''))
same('disp-list', (H, '''            _ => error!("Packet {} not supported", &packet),''', '''            ControlPacket::Connect(_)
            | ControlPacket::ConnAck(_)
            | ControlPacket::PubAck(_)
            | ControlPacket::PubRec(_)
            | ControlPacket::PubRel(_)
            | ControlPacket::PubComp(_)
            | ControlPacket::SubAck(_)
            | ControlPacket::UnsubAck(_)
            | ControlPacket::PingResp => error!("Packet {} not supported", &packet),'''))
# ---- connect
same('conn-helper', (H, AUTH, '''        if !self.is_allowed(&packet) {
            let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
            send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
            send(&sender, ServerEvent::Disconnect).await;
            return;
        }
'''), (H, '''        let client_id = packet.client_id;
        debug!("New client''', '''        let client_id = packet.client_id.clone();
        debug!("New client'''), (H, '''    async fn on_connect(''', '''    fn is_allowed(&self, packet: &ConnectPacket) -> bool {
        let user_name = match &packet.user_name {
            Some(user_name) => user_name,
            None => return true,
        };
        let password = match &packet.password {
            Some(password) => password,
            None => {
                info!("Client {} gave no password", user_name);
                return false;
            }
        };
        match self.identity_provider.authenticate(user_name, password) {
            Ok(_) => true,
            Err(e) => {
                info!("Client {} authentication error: {:?}", user_name, &e);
                false
            }
        }
    }

    async fn on_connect('''))
same('conn-match-tuple', (H, AUTH, '''        let allowed = match (&packet.user_name, &packet.password) {
            (None, _) => true,
            (Some(u), Some(p)) => self.identity_provider.authenticate(u, p).is_ok(),
            (Some(_), None) => false,
        };
        if !allowed {
            info!("Client {} not authenticated", &client_id);
            self.refuse(&sender).await;
            return;
        }
'''), (H, '''    async fn on_connect(''', '''    async fn refuse(&self, sender: &Sender<ServerEvent>) {
        let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
        send(sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
        send(sender, ServerEvent::Disconnect).await;
    }

    async fn on_connect('''))
same('conn-ok-or', (H, '''            let result = match &packet.password {
                Some(password) => self.identity_provider.authenticate(&user_name, password),
                None => Err(AuthenticationError::InvalidPassword),
            };
            if let Err''', '''            let result = packet
                .password
                .as_ref()
                .ok_or(AuthenticationError::InvalidPassword)
                .and_then(|p| self.identity_provider.authenticate(&user_name, p));
            if let Err'''))
same('conn-match-result', (H, '''            if let Err(e) = result {
                info!("Client {} authentication error: {:?}", &user_name, &e);
''', '''            let accepted = result.is_ok();
            if !accepted {
                info!("Client {} is not authorized", &user_name);
'''))
same('conn-takeover-helper', (H, PREV, '''        self.take_over(&client_id).await;
'''), (H, '''    async fn on_disconnect(''', '''    async fn take_over(&mut self, client_id: &ClientId) {
        let previous = match self.connections.remove(client_id) {
            Some(previous) => previous,
            None => return,
        };
        info!("Client {:?} connected again", client_id);
        self.remove_session(client_id.clone()).await;
        send(&previous, ServerEvent::Disconnect).await;
    }

    async fn on_disconnect('''))
same('conn-previous-get', (H, PREV, '''        let previous = self.connections.remove(&client_id);
        if previous.is_some() {
            self.remove_session(client_id.clone()).await;
        }
        if let Some(previous) = previous {
            send(&previous, ServerEvent::Disconnect).await;
        }
'''))
same('conn-insert-first', (H, INS, '''        self.connections.insert(client_id, sender.clone());
        let (insert_tx, insert_rx) = oneshot::channel();
        let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
        self.messaging_tx.send(op).await.unwrap();
        insert_rx.await.unwrap();
'''))
same('conn-ask-helper', (H, INS, '''        self.insert_session(session).await;
        self.connections.insert(client_id, sender.clone());
'''), (H, '''    async fn on_disconnect(''', '''    async fn insert_session(&self, session: Session) {
        let (tx, rx) = oneshot::channel();
        self.messaging_tx
            .send(MessagingOperation::SessionInsert { session, resp: tx })
            .await
            .expect("messaging service is running");
        rx.await.expect("messaging service is running")
    }

    async fn on_disconnect('''))
same('ask-generic', (H, INS, '''        self.ask(|resp| MessagingOperation::SessionInsert { session, resp }).await;
        self.connections.insert(client_id, sender.clone());
'''), (H, ASK, '''        let topic = publish.message.topic.clone();
        let senders_to_publish = self.ask(|resp| MessagingOperation::SendersToPublish { topic, resp }).await;
'''), (H, '''    async fn on_disconnect(''', '''    async fn ask<T>(&self, make: impl FnOnce(oneshot::Sender<T>) -> MessagingOperation) -> T {
        let (tx, rx) = oneshot::channel();
        self.messaging_tx.send(make(tx)).await.unwrap();
        rx.await.unwrap()
    }

    async fn on_disconnect('''))
same('conn-ack-inline', (H, ACK, '''        send(
            &sender,
            ServerEvent::ControlPacket(ConnAck(ConnAckPacket::new(false, ConnAckReturnCode::Accepted))),
        )
        .await;
'''))
# ---- publish
same('fan-iter', (H, FAN, FAN.replace('for sender in senders_to_publish {', 'for sender in senders_to_publish.iter() {').replace('send(&sender, event)', 'send(sender, event)')))
same('fan-helper', (H, FAN, '''        for sender in &senders_to_publish {
            send(sender, Self::delivery(&publish.message)).await;
        }
'''), (H, '''    async fn on_subscribe(''', '''    fn delivery(message: &crate::mqtt::message::Message) -> ServerEvent {
        // subscriptions are granted QoS 0
        let packet = PublishPacket::new(
            message.topic.clone(),
            message.payload.clone(),
            QoS::AtMostOnce,
            false,
            None,
            false,
        );
        ServerEvent::ControlPacket(Publish(packet))
    }

    async fn on_subscribe('''))
same('fan-index', (H, FAN, FAN.replace('for sender in senders_to_publish {', '''for i in 0..senders_to_publish.len() {
            let sender = &senders_to_publish[i];''').replace('send(&sender, event)', 'send(sender, event)')))
same('fan-while-let', (H, FAN, FAN.replace('for sender in senders_to_publish {', '''let mut receivers = senders_to_publish.into_iter();
        while let Some(sender) = receivers.next() {''')))
same('fan-clone-packet', (H, FAN, '''        let delivery = PublishPacket::new(
            publish.message.topic,
            publish.message.payload,
            QoS::AtMostOnce,
            false,
            None,
            false,
        );
        for sender in senders_to_publish {
            let event = ServerEvent::ControlPacket(Publish(delivery.clone()));
            send(&sender, event).await;
        }
'''))
same('fan-empty-early', (H, FAN, '''        if senders_to_publish.is_empty() {
            trace!("Nobody is subscribed to {:?}", &publish.message.topic);
            return;
        }

''' + FAN))
same('send-ok', (H, SEND, '''async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
    let _ = sender.send(event).await;
}'''))
same('send-match', (H, SEND, '''async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
    match sender.send(event).await {
        Ok(()) => {}
        Err(e) => debug!("Client is gone: {}", e),
    }
}'''))
same('send-closed', (H, SEND, '''async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
    if sender.send(event).await.is_err() {
        debug!("Client is gone");
    }
}'''))
# ---- subscribe, unsubscribe, ping, leaving
same('sub-capacity', (H, '''        let mut return_codes = Vec::new();

        for sub''', '''        let mut return_codes = Vec::with_capacity(subscribe.subscriptions.len());

        for sub'''))
same('sub-helper', (H, SUB, '''        let mut return_codes = vec![];
        for subscription in subscribe.subscriptions.into_iter() {
            return_codes.push(self.subscribe_one(client_id, subscription).await);
        }
        let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
        send(&sender, ServerEvent::ControlPacket(SubAck(sub_ack))).await;
'''), (H, '''    async fn on_unsubscribe(''', '''    async fn subscribe_one(
        &mut self,
        client_id: &ClientId,
        subscription: crate::mqtt::subscription::Subscription,
    ) -> crate::mqtt::packets::suback::SubAckReturnCode {
        let (resp, rx) = oneshot::channel();
        let client_id = client_id.to_owned();
        let op = MessagingOperation::Subscribe { client_id, subscription, resp };
        self.messaging_tx.send(op).await.unwrap();
        rx.await.unwrap()
    }

    async fn on_unsubscribe('''))
same('sub-destructure', (H, SUB, SUB.replace('subscribe.subscriptions {', 'subscriptions {').replace('subscribe.packet_id', 'packet_id').replace('        let mut return', '''        let SubscribePacket { packet_id, subscriptions, .. } = subscribe;
        let mut return''')))
same('disc-via-lost-order', (H, DISC, '''        let (tx, rx) = oneshot::channel();
        let op = MessagingOperation::ConnectionDisconnected { client_id: client_id.clone(), resp: tx };

        self.messaging_tx.send(op).await.unwrap();
        let _ = rx.await.unwrap();
        self.connections.remove(&client_id);
'''))
same('disc-same-op', (H, DISC, LOST))
same('lost-order', (H, LOST, '''        self.remove_session(client_id.clone()).await;
        let _ = self.connections.remove(&client_id);
'''))
same('un-destructure', (H, UNSUB, UNSUB.replace('unsubscribe.topics', 'topics').replace('unsubscribe.packet_id', 'packet_id').replace('        let (tx, rx)', '''        let packet_id = unsubscribe.packet_id;
        let topics = unsubscribe.topics;
        let (tx, rx)''', 1)))
same('ping-match', (H, PING, '''        let answer = match session_present {
            true => ServerEvent::ControlPacket(PingResp),
            false => {
                error!("Received PING from not existing session with client id {}", client_id);
                ServerEvent::Disconnect
            }
        };
        send(&sender, answer).await;
'''))
same('ping-early', (H, PING, '''        if !session_present {
            error!("Received PING from not existing session with client id {}", client_id);
            send(&sender, ServerEvent::Disconnect).await;
            return;
        }
        send(&sender, ServerEvent::ControlPacket(PingResp)).await;
'''))

# ---- bugs
bug('b-cur-only-known', 'A02 L02 L03 L04 M04 S01', (H, CUR, '''        self.connections.contains_key(client_id)'''))
bug('b-lost-any', 'L03 A02 L02 L04', (H, '''                                if self.is_current(&client_id, &tx) {
                                    self.on_connection_lost(client_id).await;
                                }''', '''                                self.on_connection_lost(client_id).await;'''))
bug('b-auth-empty-name', 'A01', (H, '''        if let Some(user_name) = packet.user_name {''', '''        if let Some(user_name) = packet.user_name.filter(|u| !u.is_empty()) {'''))
bug('b-auth-no-password', 'A01', (H, '''                None => Err(AuthenticationError::InvalidPassword),''', '''                None => Ok(()),'''))
bug('b-auth-after', 'A01', (H, AUTH, ''), (H, ACK, AUTH + ACK))
bug('b-auth-continue', 'A01', (H, '''                send(&sender, ServerEvent::Disconnect).await;
                return;
            }
        };''', '''                send(&sender, ServerEvent::Disconnect).await;
            }
        };'''))
bug('b-auth-no-close', 'L05', (H, '''                send(&sender, ServerEvent::Disconnect).await;
                return;
            }
        };''', '''                return;
            }
        };'''))
bug('b-takeover-no-close', 'L04', (H, PREV, PREV.replace('            send(&previous, ServerEvent::Disconnect).await;\n', '')))
bug('b-takeover-new-closed', 'L04', (H, PREV, PREV.replace('send(&previous', 'send(&sender')))
bug('b-takeover-keeps', 'L04', (H, PREV, PREV.replace('            self.remove_session(client_id.clone()).await;\n', '')))
bug('b-takeover-clean-only', 'L04', (H, PREV, PREV.replace('            self.remove_session(client_id.clone()).await;\n', '            if packet.clean_session {\n                self.remove_session(client_id.clone()).await;\n            }\n')))
bug('b-ack-early', 'L05 R02', (H, ACK, ''), (H, '        let session = Session::new(', ACK + '        let session = Session::new('))
bug('b-ack-present', 'L04', (H, 'let session_present = false; // sessions are not resumed', 'let session_present = !packet.clean_session;'))
same('session-own-sender', (H, '            sender.clone(),\n            packet.keep_alive_seconds,', '            self.connections.get(&client_id).cloned().unwrap_or(sender.clone()),\n            packet.keep_alive_seconds,'))
bug('b-fan-stop', 'M04', (H, FAN, FAN.replace('            send(&sender, event).await;\n', '            if sender.send(event).await.is_err() {\n                break;\n            }\n')))
bug('b-fan-skip-self', 'M04', (H, FAN, FAN.replace('        for sender in senders_to_publish {', '        for sender in senders_to_publish {\n            if sender.same_channel(&_sender) {\n                continue;\n            }')))
bug('b-fan-try', 'M04', (H, FAN, FAN.replace('send(&sender, event).await;', 'let _ = sender.try_send(event);')))
bug('b-fan-spawn', 'M06', (H, FAN, FAN.replace('send(&sender, event).await;', 'tokio::spawn(async move { send(&sender, event).await; });')))
bug('b-fan-retain', 'M05', (H, FAN, FAN.replace('''                QoS::AtMostOnce,
                false,
                None,
                false,''', '''                QoS::AtMostOnce,
                publish.message.retain,
                None,
                false,''')))
bug('b-fan-qos', 'M05', (H, FAN, FAN.replace('QoS::AtMostOnce,', 'message.qos,')))
bug('b-fan-payload', 'M04', (H, FAN, FAN.replace('message.payload,', 'message.payload.clone().split_to(message.payload.len().min(65535)),')))
bug('b-fan-topic', 'M04 M05', (H, ASK, ASK.replace('publish.message.topic.clone()', "publish.message.topic.trim_end_matches('/').to_string()")))
bug('b-send-unwrap', 'R01', (H, SEND, '''async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
    sender.send(event).await.unwrap();
}'''))
bug('b-send-drop', 'M04 S01 X', (H, SEND, '''async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
    if sender.capacity() == 0 {
        return;
    }
    let _ = sender.send(event).await;
}'''))
bug('b-sub-stop', 'M01', (H, SUB, SUB.replace('            return_codes.push(return_code);\n', '''            let failed = return_code == crate::mqtt::packets::suback::SubAckReturnCode::Failure;
            return_codes.push(return_code);
            if failed {
                break;
            }
''')))
bug('b-sub-id', 'M01', (H, SUB, SUB.replace('SubAckPacket::new(subscribe.packet_id,', 'SubAckPacket::new(subscribe.packet_id.max(1),')))
bug('b-sub-dedup', 'M01', (H, SUB, SUB.replace('        let sub_ack', '        return_codes.dedup();\n        let sub_ack')))
bug('b-sub-early-ack', 'M01 L05 R02', (H, SUB, SUB.replace('''            let return_code = rx.await.unwrap();
''', '''            let return_code = crate::mqtt::packets::suback::SubAckReturnCode::SuccessQoS0;
            drop(rx);
''')))
bug('b-un-no-wait', 'M01 M03 R02', (H, UNSUB, UNSUB.replace('        let _ = rx.await.unwrap();\n', '        drop(rx);\n')))
bug('b-un-empty', 'M01', (H, UNSUB, '''        if unsubscribe.topics.is_empty() {
            return;
        }
''' + UNSUB))
bug('b-un-id', 'M01', (H, UNSUB, UNSUB.replace('UnSubAckPacket::new(unsubscribe.packet_id)', 'UnSubAckPacket::new(unsubscribe.packet_id & 0x7fff)')))
bug('b-ping-other', 'M01', (H, PING, PING.replace('send(&sender, ServerEvent::Disconnect).await;', 'let _ = sender;')))
bug('b-disc-stays', 'L03 L04', (H, DISC, DISC.replace('        self.connections.remove(&client_id);\n', '')))
bug('b-disc-no-session', 'L03 L04', (H, DISC, '        self.connections.remove(&client_id);\n'))
bug('b-disc-forward', 'L03', (H, 'ControlPacket::Disconnect(_) => self.on_disconnect(client_id).await,', 'ControlPacket::Disconnect(_) => drop(client_id),'))
bug('b-lost-stays', 'L03 L02', (H, LOST, '        self.remove_session(client_id).await;\n'))
bug('b-stop-never', 'R04 R05', (H, '''                    debug!("Stopping manager...");
                    break;''', '''                    debug!("Stopping manager...");'''))
bug('b-loop-ends', 'R01 R04', (H, LOOP, LOOP.replace('ClientEvent::Disconnected(_client_id) => {}', 'ClientEvent::Disconnected(_client_id) => break,')))
bug('b-panic-unknown', 'R01', (H, '''            _ => error!("Packet {} not supported", &packet),''', '''            _ => unimplemented!("Packet {} not supported", &packet),'''))
bug('b-trace-slice', 'R01', (H, '''        trace!("Got packet {:?}", packet);
''', '''        trace!("Got packet {:?} of {}", packet, &client_id[..8]);
'''))
