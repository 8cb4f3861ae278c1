L = 'src/mqtt/listener.rs'
ACC = '''        loop {
            select! {
                _ = self.ctrl_c_rx.recv() => {
                    trace!("Stopping listener");
                    break;
                }
                _ = Self::accept(&self.listener, &self.client_event_tx) => {}
            }
        }
'''
ACCEPT = '''        match listener.accept().await {
            Ok((socket, address)) => {
                let client_event_tx = client_event_tx.clone();
                tokio::spawn(async move {
                    Self::handle_connection(socket, client_event_tx, address).await;
                });
            }
            Err(e) => {
                error!("Error while accepting connection: {:?}", e);
            }
        }
'''
HANDLE = '''        let (tcp_read, tcp_write) = socket.into_split();
        let (server_event_tx, server_event_rx) = mpsc::channel(32);

        let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);

        tokio::spawn(async move {
            Self::connection_write_loop(server_event_rx, &mut write_stream).await;
        });

        let mut read_stream = MqttBytesReadStream::new(4096, tcp_read);

        tokio::spawn(async move {
            Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address)
                .await;
        });
'''
FIRST = '''        let client_id;
        if let Ok(packet) = read_packet(&mut read_stream).await {
            trace!("Read the first packet: {:?}", &packet);

            if let ControlPacket::Connect(mut c) = packet {
                // todo: handle empty client id
                client_id = if c.client_id.is_empty() {
                    trace!("Client did not provide client id, id will be generated");
                    Uuid::new_v4().to_string()
                } else {
                    c.client_id.clone()
                };

                c.client_id = client_id.clone();
                let event = ClientEvent::Connected(c, address, server_event_tx.clone());
                if let Err(e) = client_event_tx.send(event).await {
                    error!("Error while sending client event to be processed: {}", &e);
                }
            } else {
                warn!("The first received packet is not CONNECT");
                return;
            }
        } else {
            return;
        }
'''
HEAD = '''        loop {
            let packet = select! {
                // the connection is not written any more, e.g. after it was told to disconnect
                _ = server_event_tx.closed() => break,
                result = read_packet(&mut read_stream) => match result {
                    Ok(packet) => packet,
                    Err(_) => break,
                },
            };
'''
READ = HEAD + '''            trace!("Read packet: {:?}", &packet);

            let disconnected = matches!(packet, ControlPacket::Disconnect(_));
            let event =
                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {
                error!("Error while sending client event to be processed: {}", &e);
            }
            if disconnected {
                return;
            }
        }
'''
LOST = '''        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
'''
WRITE = '''        while let Some(event) = server_event_rx.recv().await {
            trace!("Received server event: {:?}", &event);

            match event {
                ServerEvent::ControlPacket(packet) => {
                    trace!("Writing packet: {:?}", &packet);
                    if let Err(e) = write_packet(&mut write_stream, packet).await {
                        error!("Error while writing packet: {:?}", &e);
                    }
                }
                ServerEvent::Disconnect => {
                    break;
                }
            }
        }
'''
SIG = '''    async fn connection_read_loop('''
OBTAIN = '''    async fn first_packet(
        read_stream: &mut MqttBytesReadStream,
    ) -> Option<crate::mqtt::packets::ConnectPacket> {
        match read_packet(read_stream).await {
            Ok(ControlPacket::Connect(mut c)) => {
                if c.client_id.is_empty() {
                    c.client_id = Uuid::new_v4().to_string();
                }
                Some(c)
            }
            Ok(_) => {
                warn!("The first received packet is not CONNECT");
                None
            }
            Err(e) => {
                debug!("No packet: {:?}", &e);
                None
            }
        }
    }

    async fn connection_read_loop('''

same('acc-flag', (L, ACC, '''        let mut stopped = false;
        while !stopped {
            select! {
                _ = self.ctrl_c_rx.recv() => {
                    trace!("Stopping listener");
                    stopped = true;
                }
                _ = Self::accept(&self.listener, &self.client_event_tx) => {}
            }
        }
'''))
same('acc-inline', (L, ACC, '''        loop {
            select! {
                _ = self.ctrl_c_rx.recv() => {
                    trace!("Stopping listener");
                    return;
                }
                result = self.listener.accept() => match result {
                    Ok((socket, address)) => {
                        tokio::spawn(Self::handle_connection(socket, self.client_event_tx.clone(), address));
                    }
                    Err(e) => error!("Error while accepting connection: {:?}", e),
                },
            }
        }
'''), (L, '''    async fn accept(listener: &TcpListener, client_event_tx: &mpsc::Sender<ClientEvent>) {
''' + ACCEPT + '''    }

''', ''))
same('acc-swap', (L, ACC, '''        loop {
            select! {
                _ = Self::accept(&self.listener, &self.client_event_tx) => continue,
                _ = self.ctrl_c_rx.recv() => break,
            }
        }
        trace!("Stopped listener");
'''))
same('acc-biased', (L, ACC, ACC.replace('select! {', 'select! {\n                biased;')))
same('accept-if-let', (L, ACCEPT, '''        let (socket, address) = match listener.accept().await {
            Ok(connection) => connection,
            Err(e) => {
                error!("Error while accepting connection: {:?}", e);
                return;
            }
        };
        let client_event_tx = client_event_tx.clone();
        tokio::spawn(Self::handle_connection(socket, client_event_tx, address));
'''))
same('handle-direct', (L, ACCEPT, ACCEPT.replace('''                tokio::spawn(async move {
                    Self::handle_connection(socket, client_event_tx, address).await;
                });
''', '''                Self::handle_connection(socket, client_event_tx, address);
''')), (L, '    async fn handle_connection(', '    fn handle_connection('))
same('handle-order', (L, HANDLE, '''        let (server_event_tx, server_event_rx) = mpsc::channel(32);
        let (tcp_read, tcp_write) = socket.into_split();
        let mut read_stream = MqttBytesReadStream::new(4096, tcp_read);
        let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);

        tokio::spawn(async move {
            Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address).await
        });
        tokio::spawn(async move { Self::connection_write_loop(server_event_rx, &mut write_stream).await });
'''))
same('handle-own-read', (L, HANDLE, HANDLE.replace('''        tokio::spawn(async move {
            Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address)
                .await;
        });
''', '''        Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address).await;
''')))
same('handle-capacity', (L, HANDLE, HANDLE.replace('mpsc::channel(32)', 'mpsc::channel(64)').replace('4096, tcp_read', '8192, tcp_read')))
same('first-match', (L, FIRST, '''        let mut c = match read_packet(&mut read_stream).await {
            Ok(ControlPacket::Connect(c)) => c,
            Ok(_) => {
                warn!("The first received packet is not CONNECT");
                return;
            }
            Err(_) => return,
        };
        if c.client_id.is_empty() {
            c.client_id = Uuid::new_v4().to_string();
        }
        let client_id = c.client_id.clone();
        let event = ClientEvent::Connected(c, address, server_event_tx.clone());
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
'''))
same('first-helper', (L, FIRST, '''        let c = match Self::first_packet(read_stream).await {
            Some(c) => c,
            None => return,
        };
        let client_id = c.client_id.clone();
        Self::emit(&client_event_tx, ClientEvent::Connected(c, address, server_event_tx.clone())).await;
'''), (L, LOST, '''        Self::emit(&client_event_tx, ClientEvent::ConnectionLost(client_id, server_event_tx)).await;
'''), (L, SIG, '''    async fn emit(client_event_tx: &Sender<ClientEvent>, event: ClientEvent) {
        if let Err(e) = client_event_tx.send(event).await {
            error!("Error while sending client event to be processed: {}", &e);
        }
    }

''' + OBTAIN))
same('first-let-else', (L, FIRST, FIRST.replace('''        let client_id;
        if let Ok(packet) = read_packet(&mut read_stream).await {
''', '''        let client_id;
        let first = read_packet(&mut read_stream).await;
        if first.is_err() {
            return;
        }
        if let Ok(packet) = first {
''')))
same('read-loop', (L, READ, '''        loop {
            let result = select! {
                result = read_packet(&mut read_stream) => result,
                _ = server_event_tx.closed() => {
                    debug!("Not connected any more");
                    break;
                }
            };
            let packet = match result {
                Ok(packet) => packet,
                Err(_) => break,
            };
            trace!("Read packet: {:?}", &packet);
            let last = match &packet {
                ControlPacket::Disconnect(_) => true,
                _ => false,
            };
            let event = ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {
                error!("Error while sending client event to be processed: {}", &e);
            }
            if last {
                return;
            }
        }
'''))
same('read-flag', (L, READ + '\n' + LOST, '''        let mut left = false;
        while !left {
            let next = select! {
                _ = server_event_tx.closed() => None,
                result = read_packet(&mut read_stream) => Some(result),
            };
            match next {
                Some(Ok(packet)) => {
                    left = matches!(packet, ControlPacket::Disconnect(_));
                    let event = ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
                    if let Err(e) = client_event_tx.send(event).await {
                        error!("Error while sending client event to be processed: {}", &e);
                    }
                }
                _ => break,
            }
        }
        if left {
            return;
        }

''' + LOST))
same('read-if-let-ok', (L, READ, READ.replace('''            if let Err(e) = client_event_tx.send(event).await {
                error!("Error while sending client event to be processed: {}", &e);
            }
''', '''            match client_event_tx.send(event).await {
                Ok(_) => {}
                Err(e) => error!("Error while sending client event to be processed: {}", &e),
            }
''')))
same('read-stop-when-broker-gone', (L, READ, READ.replace('''                error!("Error while sending client event to be processed: {}", &e);
''', '''                error!("Error while sending client event to be processed: {}", &e);
                return;
''')))
same('lost-ignored', (L, LOST, '''        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
        let _ = client_event_tx.send(event).await;
'''))
same('write-loop', (L, WRITE, '''        loop {
            match server_event_rx.recv().await {
                Some(ServerEvent::ControlPacket(packet)) => {
                    if let Err(e) = write_packet(&mut write_stream, packet).await {
                        error!("Error while writing packet: {:?}", &e);
                    }
                }
                Some(ServerEvent::Disconnect) | None => break,
            }
        }
'''))
same('write-while-packet', (L, WRITE, '''        while let Some(ServerEvent::ControlPacket(packet)) = server_event_rx.recv().await {
            if let Err(e) = write_packet(&mut write_stream, packet).await {
                error!("Error while writing packet: {:?}", &e);
            }
        }
'''))
same('write-stop-on-error', (L, WRITE, WRITE.replace('''                        error!("Error while writing packet: {:?}", &e);
''', '''                        error!("Error while writing packet: {:?}", &e);
                        break;
''')))

bug('b-acc-break', 'R05 R01', (L, ACCEPT, ACCEPT.replace('error!("Error while accepting connection: {:?}", e);', 'panic!("Error while accepting connection: {:?}", e);')))
bug('b-acc-await', 'R05 R03', (L, ACCEPT, ACCEPT.replace('''                tokio::spawn(async move {
                    Self::handle_connection(socket, client_event_tx, address).await;
                });
''', '''                Self::handle_connection(socket, client_event_tx, address).await;
''')), (L, HANDLE, HANDLE.replace('''        tokio::spawn(async move {
            Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address)
                .await;
        });
''', '''        Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address).await;
''')))
bug('b-first-any', 'A01 L01 L02 A02', (L, '''                warn!("The first received packet is not CONNECT");
                return;
            }
        } else {''', '''                warn!("The first received packet is not CONNECT");
                client_id = Uuid::new_v4().to_string();
            }
        } else {'''))
bug('b-id-not-set', 'L01 A02 L02', (L, FIRST, FIRST.replace('                c.client_id = client_id.clone();\n', '')))
bug('b-id-trim', 'L04', (L, FIRST, FIRST.replace('                    c.client_id.clone()\n', '                    c.client_id.trim().to_string()\n')))
bug('b-id-const', 'L04', (L, FIRST, FIRST.replace('Uuid::new_v4().to_string()', 'Uuid::nil().to_string()')))
bug('b-no-lost', 'L02', (L, LOST, ''))
bug('b-lost-try', 'M06', (L, LOST, '''        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
        let _ = client_event_tx.try_send(event);
'''))
bug('b-lost-on-ping', 'L02', (L, READ, READ.replace('matches!(packet, ControlPacket::Disconnect(_))', 'matches!(packet, ControlPacket::Disconnect(_) | ControlPacket::UnsubAck(_))')))
bug('b-read-skip', 'M06 M01 A02 L04', (L, READ, READ.replace('''            let disconnected =''', '''            if matches!(packet, ControlPacket::PubAck(_)) && client_event_tx.capacity() == 0 {
                continue;
            }
            let disconnected =''')))
bug('b-read-drop-full', 'M06 M01', (L, READ, READ.replace('client_event_tx.send(event).await', 'client_event_tx.try_send(event)')))
bug('b-read-spawn', 'M06', (L, READ, READ.replace('''            if let Err(e) = client_event_tx.send(event).await {
                error!("Error while sending client event to be processed: {}", &e);
            }
''', '''            let tx = client_event_tx.clone();
            tokio::spawn(async move { let _ = tx.send(event).await; });
''')))
bug('b-read-retry', 'L02', (L, READ, READ.replace('Err(_) => break', '''Err(e) if e.kind() == std::io::ErrorKind::InvalidData => continue,
                    Err(_) => break''')))
bug('b-write-ignores', 'L04 L05', (L, WRITE, WRITE.replace('''                    break;
                }
            }
        }''', '''                    debug!("Disconnect");
                }
            }
        }''')))
bug('b-write-skip', 'L05 M01 M04', (L, WRITE, WRITE.replace('''                    trace!("Writing packet: {:?}", &packet);
''', '''                    if server_event_rx.is_closed() {
                        continue;
                    }
''')))
bug('b-shared-channel', 'L01 A02 L05 M04', (L, HANDLE, HANDLE.replace('Self::connection_write_loop(server_event_rx, &mut write_stream).await;', 'let (_tx, rx) = mpsc::channel(32);\n            drop(server_event_rx);\n            Self::connection_write_loop(rx, &mut write_stream).await;')))
bug('b-acc-no-signal', 'R04', (L, ACC, '''        loop {
            Self::accept(&self.listener, &self.client_event_tx).await;
            if self.ctrl_c_rx.try_recv().is_ok() {
                break;
            }
        }
'''))

same('id-format', (L, FIRST, FIRST.replace('Uuid::new_v4().to_string()', 'format!("auto-{}", Uuid::new_v4())')))
same('id-helper', (L, FIRST, FIRST.replace('Uuid::new_v4().to_string()', 'generate_client_id()')), (L, 'impl MqttListener {', 'fn generate_client_id() -> String {\n    let id = Uuid::new_v4();\n    id.to_string()\n}\n\nimpl MqttListener {'))

# ---- the end of a connection
NEXT = "    async fn connection_read_loop("
same('over-helper', (L, HEAD, '''        while let Some(packet) = Self::next_packet(&server_event_tx, read_stream).await {
'''), (L, NEXT, '''    async fn next_packet(tx: &Sender<ServerEvent>, stream: &mut MqttBytesReadStream) -> Option<ControlPacket> {
        let mut stream = stream;
        select! {
            _ = tx.closed() => None,
            result = read_packet(&mut stream) => result.ok(),
        }
    }

''' + NEXT))
same('over-biased', (L, HEAD, HEAD.replace('select! {', 'select! {\n                biased;')))
same('over-biased-read-first', (L, HEAD, '''        loop {
            let packet = select! {
                biased;
                result = read_packet(&mut read_stream) => match result {
                    Ok(packet) => packet,
                    Err(_) => break,
                },
                _ = server_event_tx.closed() => break,
            };
'''))
same('over-clone', (L, HEAD, HEAD.replace('        loop {', '        let writer = server_event_tx.clone();\n        loop {').replace('_ = server_event_tx.closed()', '_ = writer.closed()')))
same('over-pattern', (L, HEAD, '''        loop {
            let packet = select! {
                Ok(packet) = read_packet(&mut read_stream) => packet,
                _ = server_event_tx.closed() => break,
                else => break,
            };
'''.replace('                else => break,\n', '').replace('Ok(packet) = read_packet(&mut read_stream) => packet', 'result = read_packet(&mut read_stream) => if let Ok(packet) = result { packet } else { break }')))
same('over-option', (L, HEAD, '''        loop {
            let read = select! {
                result = read_packet(&mut read_stream) => result.ok(),
                _ = server_event_tx.closed() => None,
            };
            let packet = if let Some(packet) = read { packet } else { break };
'''))
same('over-check-too', (L, HEAD, HEAD.replace('            let packet = select!', '            if server_event_tx.is_closed() {\n                break;\n            }\n            let packet = select!')))
same('over-pinned', (L, HEAD, HEAD.replace('        loop {', '        let writer = server_event_tx.clone();\n        let gone = writer.closed();\n        tokio::pin!(gone);\n        loop {').replace('_ = server_event_tx.closed()', '_ = &mut gone')))
same('over-async-block', (L, HEAD, HEAD.replace('result = read_packet(&mut read_stream) =>', 'result = async { read_packet(&mut read_stream).await } =>')))
same('over-first-too', (L, 'if let Ok(packet) = read_packet(&mut read_stream).await {\n            trace!("Read the first', '''let first = select! {
            _ = server_event_tx.closed() => return,
            result = read_packet(&mut read_stream) => result,
        };
        if let Ok(packet) = first {
            trace!("Read the first'''))
same('over-write-error', (L, '''error!("Error while writing packet: {:?}", &e);
                    }''', '''error!("Error while writing packet: {:?}", &e);
                        break;
                    }'''))
same('over-drop', (L, '''        trace!("Client write task ended");''', '''        drop(server_event_rx);
        trace!("Client write task ended");'''))

bug('over-none', 'L06', (L, HEAD, '''        while let Ok(packet) = read_packet(&mut read_stream).await {
'''))
bug('over-checked-before', 'L06', (L, HEAD, '''        while !server_event_tx.is_closed() {
            let packet = match read_packet(&mut read_stream).await {
                Ok(packet) => packet,
                Err(_) => break,
            };
'''))
bug('over-not-the-end', 'L06', (L, HEAD, HEAD.replace('_ = server_event_tx.closed() => break,', '_ = server_event_tx.closed() => {\n                    trace!("Not written any more");\n                    continue;\n                }')))
bug('over-guarded', 'L06', (L, HEAD, HEAD.replace('.closed() => break,', '.closed(), if !client_id.starts_with(\'$\') => break,')))
bug('over-other-channel', 'L06', (L, HEAD, HEAD.replace('server_event_tx.closed()', 'client_event_tx.closed()')))
bug('over-writer-holds-sender', 'L06', (L, '''        tokio::spawn(async move {
            Self::connection_write_loop(server_event_rx, &mut write_stream).await;
        });''', '''        let keep = server_event_tx.clone();
        tokio::spawn(async move {
            Self::connection_write_loop(server_event_rx, &mut write_stream).await;
            trace!("Writing ended, closed: {}", keep.is_closed());
        });'''))
bug('over-interval', 'C02 M06', (L, HEAD, HEAD.replace('            let packet = select! {', '            let packet = select! {\n                _ = tokio::time::sleep(std::time::Duration::from_secs(60)) => {\n                    trace!("Nothing read for a minute");\n                    continue;\n                }')))
bug('over-writer-linger', 'L06 L05 L04', (L, '''                ServerEvent::Disconnect => {
                    break;
                }''', '''                ServerEvent::Disconnect => {
                    if server_event_rx.try_recv().is_err() {
                        break;
                    }
                }'''))
bug('over-forget', 'L06', (L, '''        trace!("Client read task ended");''', '''        std::mem::forget(client_event_tx);
        trace!("Client read task ended");'''))
bug('over-write-interrupted', 'C07 M01 M04', (L, '''                    if let Err(e) = write_packet(&mut write_stream, packet).await {
                        error!("Error while writing packet: {:?}", &e);
                    }''', '''                    select! {
                        result = write_packet(&mut write_stream, packet) => if let Err(e) = result {
                            error!("Error while writing packet: {:?}", &e);
                        },
                        _ = tokio::time::sleep(std::time::Duration::from_secs(10)) => {
                            warn!("The client does not read");
                        }
                    }'''))
