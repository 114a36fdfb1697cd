// Which lock owns which shared table (C18). The checker derives one lock
// discipline unit for every exported function that can reach one of them.
guard UpperDeck.endpoints UpperDeck.Mutex
guard Heartbeat.monitors Heartbeat.mutex
guard FrameDecoder.caches FrameDecoder.mutex
guard TCPTransport.connections TCPTransport.Mutex
guard TCPTransport.isRunning TCPTransport.Mutex
guard UDSTransport.connections UDSTransport.Mutex
guard UDSTransport.isRunning UDSTransport.Mutex
guard ReferenceTransport.connection ReferenceTransport.Mutex
guard ReferenceTransport.isRunning ReferenceTransport.Mutex
guard chans mutex
guard referenceChannel.refCount mutex
