A = 'src/application.rs'
S = 'src/settings/mod.rs'
BIND = '''    for bind_address in settings.mqtt.listeners_tcp {
        let listener = MqttListener::bind(
            bind_address.as_str(),
            client_tx.clone(),
            ctrl_c_tx.subscribe(),
        )
        .await
        .unwrap();

        listeners.push(tokio::spawn(listener.start_accepting()));
    }
'''
END = '''    join_all(listeners).await;

    messaging_service_future.await.unwrap();
    // keep_alive_checker_future.await.unwrap();
    manager_future.await.unwrap();
'''
MERGE = '''        let mut config = Config::new();

        config.merge(File::with_name(config_filename).format(FileFormat::Toml))?;
        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;

        config.try_into()
'''
same('bind-iter', (A, BIND, BIND.replace('in settings.mqtt.listeners_tcp {', 'in settings.mqtt.listeners_tcp.iter() {')))
same('bind-index', (A, BIND, BIND.replace('for bind_address in settings.mqtt.listeners_tcp {', '''let addresses = &settings.mqtt.listeners_tcp;
    for i in 0..addresses.len() {
        let bind_address = &addresses[i];''')))
same('bind-expect', (A, BIND, BIND.replace('.unwrap()', '.expect("cannot listen")')))
same('bind-match', (A, BIND, '''    for bind_address in settings.mqtt.listeners_tcp {
        let bound = MqttListener::bind(&bind_address, client_tx.clone(), ctrl_c_tx.subscribe()).await;
        let listener = match bound {
            Ok(listener) => listener,
            Err(e) => panic!("Cannot listen on {}: {:?}", &bind_address, e),
        };
        let task = tokio::spawn(async move { listener.start_accepting().await });
        listeners.push(task);
    }
'''))
same('bind-helper', (A, BIND, '''    for bind_address in &settings.mqtt.listeners_tcp {
        listeners.push(listen(bind_address, &client_tx, &ctrl_c_tx).await);
    }
'''), (A, 'pub async fn run(', '''async fn listen(
    address: &str,
    client_tx: &mpsc::Sender<crate::mqtt::events::ClientEvent>,
    ctrl_c_tx: &broadcast::Sender<()>,
) -> tokio::task::JoinHandle<()> {
    let listener = MqttListener::bind(address, client_tx.clone(), ctrl_c_tx.subscribe())
        .await
        .unwrap();
    tokio::spawn(listener.start_accepting())
}

pub async fn run('''))
same('bind-two-steps', (A, BIND, '''    let mut bound = Vec::new();
    for bind_address in settings.mqtt.listeners_tcp {
        bound.push(MqttListener::bind(&bind_address, client_tx.clone(), ctrl_c_tx.subscribe()).await.unwrap());
    }
    for listener in bound {
        listeners.push(tokio::spawn(listener.start_accepting()));
    }
'''))
same('end-order', (A, END, '''    join_all(listeners).await;
    manager_future.await.unwrap();
    messaging_service_future.await.unwrap();
'''))
same('end-loop', (A, END, '''    for listener in listeners {
        listener.await.unwrap();
    }
    manager_future.await.unwrap();
    messaging_service_future.await.unwrap();
'''))
same('end-join', (A, END, '''    join_all(listeners).await;
    let (m, s) = tokio::join!(manager_future, messaging_service_future);
    m.unwrap();
    s.unwrap();
'''))
same('start-order', (A, '''    let manager_future = tokio::spawn(manager.run());

    let messaging_service_future = tokio::spawn(messaging_service.run(messaging_rx));
''', '''    let messaging_service_future = tokio::spawn(async move { messaging_service.run(messaging_rx).await });
    let manager_future = tokio::spawn(async move { manager.run().await });
'''))
same('capacity', (A, 'let (client_tx, client_rx) = mpsc::channel(32);', 'let (client_tx, client_rx) = mpsc::channel(128);'))
same('signal-expect', (A, 'signal::ctrl_c().await.unwrap();', 'signal::ctrl_c().await.expect("no signal handler");'))
same('signal-import', (A, 'ctrl_c_tx.send(()).unwrap();', 'let _ = ctrl_c_tx.send(());'))
same('settings-file', (S, MERGE, '''        let file = File::with_name(config_filename).format(FileFormat::Toml);
        let environment = Environment::with_prefix("ratelmq").separator("__");
        let mut config = Config::default();
        config.merge(file)?;
        config.merge(environment)?;
        config.try_into()
'''))
same('settings-chain', (S, MERGE, '''        let mut config = Config::new();
        config
            .merge(File::with_name(config_filename).format(FileFormat::Toml))?
            .merge(Environment::with_prefix("ratelmq").separator("__"))?;
        config.try_into::<Settings>()
'''))
same('settings-match', (S, MERGE, '''        let mut config = Config::new();
        if let Err(e) = config.merge(File::with_name(config_filename).format(FileFormat::Toml)) {
            return Err(e);
        }
        match config.merge(Environment::with_prefix("ratelmq").separator("__")) {
            Ok(_) => config.try_into(),
            Err(e) => Err(e),
        }
'''))

bug('b-bind-skip', 'R05', ('src/mqtt/listener.rs', 'TcpListener::bind(address).await.unwrap()', 'TcpListener::bind(address).await?'), (A, BIND, '''    for bind_address in settings.mqtt.listeners_tcp {
        let bound = MqttListener::bind(&bind_address, client_tx.clone(), ctrl_c_tx.subscribe()).await;
        if let Ok(listener) = bound {
            listeners.push(tokio::spawn(listener.start_accepting()));
        }
    }
'''))
bug('b-bind-first', 'R05', (A, BIND, BIND.replace('in settings.mqtt.listeners_tcp {', 'in settings.mqtt.listeners_tcp.into_iter().take(16) {')))
bug('b-bind-not-accepting', 'R05', (A, BIND, BIND.replace('        listeners.push(tokio::spawn(listener.start_accepting()));\n', '''        if listeners.len() < 8 {
            listeners.push(tokio::spawn(listener.start_accepting()));
        }
''')))
bug('b-end-no-manager', 'R04', (A, '    manager_future.await.unwrap();\n', ''))
bug('b-end-no-signal', 'R04', (A, '    ctrl_c_tx.send(()).unwrap();\n', '    debug!("{}", ctrl_c_tx.receiver_count());\n'))
bug('b-end-first', 'R04', (A, '''    signal::ctrl_c().await.unwrap();
''', '''    tokio::select! {
        r = signal::ctrl_c() => r.unwrap(),
        _ = client_tx.closed() => {}
    }
'''))
bug('b-env-first', 'S01', (S, MERGE, '''        let mut config = Config::new();

        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;
        config.merge(File::with_name(config_filename).format(FileFormat::Toml))?;

        config.try_into()
'''))
bug('b-file-optional', 'S01', (S, 'File::with_name(config_filename).format(FileFormat::Toml)', 'File::with_name(config_filename).format(FileFormat::Toml).required(false)'))
bug('b-env-ignored', 'S01', (S, '''        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;''', '''        config.merge(Environment::with_prefix("ratelmq").separator("__")).ok();'''))
bug('b-default', 'S01', (S, '''    pub listeners_tcp: Vec<String>,''', '''    #[serde(default)]
    pub listeners_tcp: Vec<String>,'''))

# listeners are bound first and started from a list
TWO = '''    let mut bound = Vec::new();
    for bind_address in settings.mqtt.listeners_tcp {
        bound.push(MqttListener::bind(&bind_address, client_tx.clone(), ctrl_c_tx.subscribe()).await.unwrap());
    }
    for listener in bound {
        listeners.push(tokio::spawn(listener.start_accepting()));
    }
'''
same('bind-two-pair', (A, BIND, TWO.replace('bound.push(Mq', 'bound.push((bind_address.clone(), Mq').replace('.unwrap());', '.unwrap()));').replace(
    'for listener in bound', 'for (_, listener) in bound')))
same('bind-two-helper', (A, BIND, '    let bound = bind_all(&settings, &client_tx, &ctrl_c_tx).await;\n    for listener in bound {\n'
     '        listeners.push(tokio::spawn(listener.start_accepting()));\n    }\n'), (A, 'pub async fn run(', '''async fn bind_all(
    settings: &Settings,
    client_tx: &mpsc::Sender<crate::mqtt::events::ClientEvent>,
    ctrl_c_tx: &broadcast::Sender<()>,
) -> Vec<MqttListener> {
    let mut bound = Vec::with_capacity(settings.mqtt.listeners_tcp.len());
    for address in &settings.mqtt.listeners_tcp {
        bound.push(MqttListener::bind(address, client_tx.clone(), ctrl_c_tx.subscribe()).await.unwrap());
    }
    bound
}

pub async fn run('''))
bug('bind-two-skip', 'R05', (A, BIND, TWO.replace('in bound {', 'in bound.into_iter().skip(1) {')))
bug('bind-two-first', 'R05', (A, BIND, TWO.replace('    for listener in bound {', '    if let Some(listener) = bound.pop() {')))
bug('bind-two-break', 'R05', (A, BIND, TWO.replace('start_accepting()));\n', 'start_accepting()));\n        if listeners.len() == 4 {\n            break;\n        }\n')))
bug('bind-two-lost', 'R05', (A, BIND, TWO.replace('    for listener in bound', '    bound.truncate(8);\n    for listener in bound')))
bug('bind-two-unheld', 'R04', (A, BIND, TWO.replace('listeners.push(tokio::spawn(listener.start_accepting()));', 'tokio::spawn(listener.start_accepting());')
    .replace('let mut bound', 'listeners.push(tokio::spawn(async {}));\n    let mut bound')))
same('bind-two-map', (A, BIND, TWO.replace('''    for listener in bound {
        listeners.push(tokio::spawn(listener.start_accepting()));
    }
''', '    listeners.extend(bound.into_iter().map(|listener| tokio::spawn(listener.start_accepting())));\n')))
same('bind-two-collect', (A, 'let mut listeners = Vec::new();\n', ''), (A, BIND, TWO.replace('''    for listener in bound {
        listeners.push(tokio::spawn(listener.start_accepting()));
    }
''', '    let listeners: Vec<_> = bound.into_iter().map(|listener| tokio::spawn(listener.start_accepting())).collect();\n')))
