import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SL="src/modbus_slave.c"; SP="src/slave_internall/modbus_slave_PDU.c"; SD="src/slave_internall/modbus_slave_data.c"; SR="src/slave_internall/modbus_slave_RTU.c"
MA="src/modbus_master.c"; MP="src/master_internall/modbus_master_PDU.c"; MQ="src/master_internall/modbus_queue.c"; MR="src/master_internall/modbus_master_RTU.c"
CR="src/common/modbus_crc.c"; RT="src/common/modbus_RTU.c"; PC="src/common/modbus_PDU_common.c"; BR="src/common/buf_rw.c"; CFG="src/modbus_config.h"; TY="src/common/modbus_type.h"; DI="src/modbus_driver_interface.h"
obsS=["the driver's send() of the slave","the application variables registered with the slave"]
obsM=["the driver's send() of the master","the return values of the request functions","the data, exception, timeout and communication-error callbacks"]

p("S01","Slave answers every valid request with the exact Modbus response",
 "When a slave receives an undamaged, well-formed request addressed to it for registered data (function codes 1-6, 15, 16), it sends, once the line has been silent for 3.5 characters, exactly one response frame: its own address, the function code, the values the application variables have at that time (coils and inputs packed least significant bit first with zero padding, registers big-endian) or the echo a write requires, and a correct CRC. It sends nothing else, and the response never depends on earlier traffic.",
 ["inputs","histories","configurations"],"All eight functions, every address/quantity pair that fits the tables, all data values, every slave ID from 1 to 247, every sequence of earlier requests, every placement of polls between line events.",
 "The tests check a few fixed addresses, quantities and values, each on a fresh state and mostly below the RTU layer; packing boundaries, large quantities and left-overs of previous messages are quantified over inputs and histories.",
 [SP,SL,RT,SD],[("function dispatch and request handlers",SP),("state machine idle/received/transmitting",SL),("frame assembly and CRC",RT),("table access",SD)],
 [("slave tables","pointer to the application variable of every address",SD)],obsS)
p("S02","Slave writes exactly the requested data and nothing else",
 "An accepted write request sets every addressed coil or holding register to exactly the value in the request, as soon as its response is sent, and changes no other application data. Read requests and every frame that is not an accepted write change no application data at all.",
 ["inputs","histories","configurations"],"All write functions, address/quantity pairs and data patterns, interleaved with reads and rejected requests; every registered variable and its neighbours in memory are compared after every frame; variables may be registered under several addresses.",
 "The tests look only at the addressed items of single requests; that nothing else changes over any history is a frame condition over all addresses.",
 [SP,SD,SL],[("write handlers",SP),("set_coil_state/set_register_value",SD)],None,obsS)
p("S03","Slave rejects invalid requests with the prescribed exception and no effect",
 "A request addressed to the slave that is intact but asks for something invalid is answered by exactly one exception response (function code with the top bit set): 01 for an unsupported function, 03 for a quantity outside the limits of the protocol, a byte count that contradicts the quantity or a coil value other than 0x0000/0xFF00, and 02 for an address range not inside the configured table. Such a request changes no application data.",
 ["inputs","histories","configurations"],"All unsupported function codes 1-127, all out-of-limit quantities, byte counts and coil values, all address ranges crossing the table end including the end of the 16-bit address space, after any earlier traffic. If several rules are broken an invalid quantity or coil value goes before the address; a wrong byte count together with a wrong address may be reported as either.",
 "The tests sample one or two bad values for each rule; the boundary lies somewhere else for every address/quantity pair, and overflow of the 16-bit address is not sampled.",
 [SP,SL],[("check_read_req_data_correcntess / check_write_req_data_correctness",SP),("set_exception_code_resp",SP)],None,obsS)
p("S04","Slave ignores damaged, foreign and incomplete frames",
 "A frame whose CRC is wrong, that is addressed to another device, that is shorter than the shortest possible request, or in which the driver reported a character or timing error produces no response and changes no application data. The next intact request is handled as if the bad frame had never been there.",
 ["inputs","histories","fault_sequences"],"All frame contents up to 255 bytes (truncations, extensions, bit flips, other slaves' requests and responses, frame-error reports at any byte or between the 1.5 and 3.5 character events), in any number and order between valid requests, with polls at any point.",
 "The tests raise one error once in one state; persistence of error flags and left-over bytes into later frames depends on the history.",
 [SL,RT,CR],[("RTU check of address and CRC",RT),("frame error flag",SL)],None,obsS)
p("S05","Slave never acts on bytes that were not part of the request",
 "A request for the slave whose length contradicts its function (fields missing, fewer or more data bytes than its byte count announces, extra bytes at the end) changes no application data and is never answered as successful, even though its CRC is correct. In particular bytes left over from earlier messages are never used in place of missing ones.",
 ["inputs","histories"],"All eight functions, every total length from 1 to 255 bytes with a correct CRC, every byte count, after earlier longer messages whose contents would complete the request.",
 "No test sends a well-checksummed request of the wrong length, and the effect depends on what an earlier message left in the receive buffer.",
 [SL,SP],[("check_master_request_len",SP),("idle-state reception",SL)],None,obsS)
p("S06","Slave recovers from any disturbance of the line",
 "After any sequence of received bytes, character errors and 1.5/3.5-character silences, including ones that overlap the sending of a response, the first intact request that follows a 3.5-character silence is received and answered correctly. The slave never becomes deaf or stuck, whatever came before.",
 ["fault_sequences","histories","schedules"],"Random and adversarial sequences of bytes, breaks, frame errors and frames of up to several hundred bytes, at any state of the slave, with any number of polls between the events, provided a few polls happen in each 3.5-character silence before the next intact request.",
 "Every test drives one state transition; being stuck shows only after particular sequences of events (e.g. a break inside a frame received during a response).",
 [SL],[("state machine and event flags",SL)],[("event flags","1.5/3.5 character, frame error and transmission flags",SL)],obsS)
p("S07","Slave never touches memory it does not own",
 "Whatever bytes arrive on the line, in whatever lengths and event order, and whatever addresses, including addresses outside the tables, are passed to its registration functions, the slave performs no out-of-bounds, null or otherwise invalid memory access and no other undefined operation.",
 ["inputs","histories","fault_sequences","configurations"],"Arbitrary frames of 0-600 bytes, valid and malformed, all registration calls with any 16-bit address, re-initialisation at any time; table sizes from 1 to 65535.",
 "The tests run without sanitizers and only with well-formed messages; memory errors need particular quantities, lengths or addresses.",
 [SL,SP,SD,SR,RT,CR],[("bounds checks of requests",SP),("range checks of registration",SL),("256-byte buffers",SR)],None,["AddressSanitizer and UndefinedBehaviorSanitizer reports","canaries around the receive buffer use"])
p("S08","Slave data registration: each table independent, missing data reported",
 "Each of the four tables serves, for every address, the variable registered last for that address, and registering, replacing or removing (NULL) a variable affects only that address of that table; registrations outside a table have no effect. A request that touches an address without a variable is answered with exception 04, and then no variable outside the addressed range is changed and every variable inside it keeps its value or has the requested one.",
 ["inputs","histories","configurations"],"All addresses of all tables in any order of registration, replacement and removal, mixed with all requests, including shared variables and addresses outside the tables.",
 "The tests register a handful of addresses once; cross-table mix-ups and stale registrations need histories of registrations.",
 [SL,SD,SP],[("registration functions",SL),("NULL checks of table access",SD)],None,obsS)
p("S09","Slave transmits only when it may and never alters a response on the line",
 "The slave starts a response only after the line has been silent for 3.5 characters since the last received character, never starts another transmission before the driver reported the end of the current one, and does not change the response while it is being transmitted. Each received request causes at most one transmission.",
 ["schedules","histories","fault_sequences"],"Any delay between send and its completion (including completion inside send), reception of further bytes and frames during the transmission, breaks and late polls, one or both silence events between two polls.",
 "The tests complete every transmission at once in a fixed order and never look at the transmit buffer afterwards.",
 [SL],[("transmitting state",SL)],[("RESP_TRANSMITION_FLAG","transmission running",SL)],obsS)
p("S10","Slave initialisation is complete at any time",
 "Initialising the slave, at start or again at any moment (in the middle of a frame or of a response), configures the driver with the given speed and parity, subscribes to all four driver events, enables reception into an empty buffer, and makes the given address effective. A frame or response in progress is dropped, registered data are kept, and the next intact request to the new address is answered correctly.",
 ["histories","schedules","configurations"],"All baud rates, parities and IDs; re-initialisation after every kind of event and in every state, with stale driver events arriving afterwards.",
 "The tests initialise once per test from the same fresh state.",
 [SL],[("modbus_slave_init",SL)],None,["calls of the driver's functions"]+obsS)

p("M01","Master sends exactly the requested frame",
 "For every accepted request the frame the master transmits is exactly the Modbus RTU request for the arguments given (address, function, big-endian fields, packed coils with zero padding, byte count, CRC), with no bytes of earlier messages in it. It reflects the data passed at the time of the call, even if the caller's array changes or is freed before the transmission, and the caller's data are not modified.",
 ["inputs","histories","configurations"],"All eight request functions, all addresses, all valid quantities (1-2000, 1-125, 1-1968, 1-123), values and slave IDs, any fill level of the queue and any earlier traffic in the reused buffers.",
 "The tests compare a few fields of single requests of small size in a fresh buffer; quantities near the limits, stale buffers and mutation of the arguments are not sampled.",
 [MA,MP,RT,PC,BR],[("request builders",MP),("generate_request",MA),("frame assembly and CRC",RT)],None,obsM)
p("M02","Master refuses impossible requests without side effects",
 "A request with a quantity of zero or above the protocol's limit (2000 coils or inputs read, 125 registers read, 1968 coils and 123 registers written) is refused with an error code, and nothing is transmitted or reported for it. Refused requests, in any number, never reduce the number of requests that can be accepted and never disturb queued or running ones.",
 ["inputs","histories"],"All request functions and quantities 0-65535, arbitrarily many refusals in any state of the queue and of the running request.",
 "The tests check one refusal's return value; the loss of capacity appears only after several refusals followed by valid requests.",
 [MA,MP,MQ],[("generate_request",MA),("quantity limits",MP)],None,obsM)
p("M03","Master processes requests in order, one at a time, up to its queue size",
 "Accepted requests are transmitted in the order in which they were accepted, each only after the previous one has ended, and none is lost, duplicated or overtaken. As many requests as the configured queue size can be unfinished at once (the running one included); only beyond that is a request refused with the queue-full code, and each finished request makes room for one more, for ever.",
 ["histories","schedules","configurations"],"Arbitrary interleavings of requests, polls, outcomes and errors over long histories (many times the queue size), requests issued from the data callbacks included; queue sizes 1 to 255. A request issued inside the callback of the running request may or may not find its place free.",
 "The tests push and pop fixed short sequences; wrap-around combined with retries and failures is a property of histories.",
 [MA,MQ],[("free and transmit queues",MQ),("state machine",MA)],[("free_q/tx_rx_q","unused and waiting message buffers",MA)],obsM)
p("M04","Master: every accepted request ends with exactly one outcome",
 "Whatever is received on the line, every accepted request ends after a bounded number of timeout ticks and polls with exactly one outcome: its data or confirmation, an exception report, one communication-error report or one timeout report. The master never gets stuck, never reports anything for a request that is not running, and then goes on with the next request.",
 ["fault_sequences","schedules","histories"],"Arbitrary bytes, character errors and silences before, during and after transmission and response, any number of polls between them, one or several ticks between two polls, transmission completing at any time from inside send onwards.",
 "The tests walk through the state machine step by step with the expected event at each step; stuck states need unexpected orders of events.",
 [MA],[("state machine, event flags and timeout timer",MA)],None,obsM)
p("M05","Master delivers exactly the data of the response",
 "When the slave addressed answers a read request correctly, the application gets exactly one callback for each requested item, in ascending address order starting at the requested address (modulo 65536), of the kind that was requested, with that slave's address and the value at that place in the response. No other callbacks are made and items never mix between requests.",
 ["inputs","histories","configurations"],"All four read functions, all addresses and valid quantities, all response contents, any sequence of requests to any slaves.",
 "The tests read one or two items; bit and byte offsets at large quantities and address wrap are not sampled.",
 [MP],[("update_*_from_modbus_msg",MP)],None,obsM)
p("M06","Master reports write confirmations and exceptions of the right request",
 "A correct response to a write request causes exactly one confirmation of the right kind with the slave's address, the written address and the quantity written (1 for single writes). An exception response causes exactly one exception report of the kind of data addressed, carrying the slave, the function code of the request, the exception code received, the address and the quantity requested, and nothing else.",
 ["inputs","histories"],"All eight functions, all exception codes 0-255, all addresses and quantities, any earlier traffic.",
 "The tests check single fixed examples of each report.",
 [MP],[("report_write_operation_confirmation",MP),("process_modbus_exception_code",MP)],None,obsM)
p("M07","Master never accepts a response that does not answer its request",
 "A frame from the addressed slave with a correct CRC but another function code, a wrong length, a byte count that does not fit the requested quantity, or a write confirmation for another address, value or quantity is never turned into data, a confirmation or an exception report. It counts as a failed attempt, and data left over from earlier messages are never delivered.",
 ["inputs","histories","fault_sequences"],"All functions and quantities against all mismatching functions, lengths 4-255 (exact and off by one), byte counts and echoes, after earlier complete responses.",
 "No test sends a well-checksummed response to a different request.",
 [MA,MP],[("modbus_master_check_slave_resp",MP)],None,obsM)
p("M08","Master retries failed attempts exactly as configured",
 "After a damaged or mismatching response the master retransmits the identical request, up to the configured number of retries; if the last attempt fails too it reports exactly one communication error, of CRC kind if the last response was only checksum-damaged and of frame kind if the driver reported a character or timing error. Every request has its full number of retries whatever happened to earlier ones, and a correct response at any attempt ends it successfully.",
 ["fault_sequences","histories","configurations"],"All sequences of good, CRC-damaged, frame-error and mismatching responses up to the retry limit, across consecutive requests, retry counts 0 to 254, a timeout at any attempt.",
 "The tests repeat one kind of error for one request; mixes of error kinds and carry-over between requests are histories.",
 [MA],[("retry counter and error handling",MA)],[("modbus_master_msg_repeat_couter","failed attempts of the running request",MA)],obsM)
p("M09","Master reports a missing response after the timeout, and only then",
 "If no response of the addressed slave arrives, the master reports exactly one timeout for the request, not earlier than one tick before the configured number of ticks after its transmission has ended and not later than the first polls after that number has passed, however ticks and polls are distributed. A response that arrives within that time is never reported as a timeout, and every transmission has its full time.",
 ["schedules","inputs","fault_sequences","configurations"],"Timeouts from 2 to more than 65536 ticks, any number of ticks between polls, other slaves' frames, noise and earlier responses, timeouts or retries beforehand; long transmissions. The ticks count from the first poll that can notice the end of the transmission.",
 "The tests call the tick once or a fixed number of times; skipped polls and left-over timer values depend on schedule and history.",
 [MA],[("timeout timer",MA)],[("modbus_master_resp_timeout_timer","ticks left",MA)],obsM)
p("M10","Master ignores frames of other slaves while waiting",
 "While the master waits for a slave's response, frames that start with another address, intact or damaged, cause no report, retransmission or extension of the timeout. The response of the addressed slave that follows is accepted as if they had not been there.",
 ["fault_sequences","histories","inputs"],"Any number of foreign frames of any content and length, with and without character errors, before the response or the timeout, with polls anywhere.",
 "The tests send one foreign frame and look at one variable.",
 [MA,RT],[("RTU receive handling in waiting state",MA)],None,obsM)
p("M11","Master's error reports identify the failed request",
 "Every timeout report and communication-error report carries the slave address, function code, data address and quantity (1 for single writes) of the request that failed, and the kind of error. This holds whatever bytes were received for it.",
 ["inputs","histories","fault_sequences"],"All eight functions with all arguments, failing by timeout, CRC, frame error or mismatch, with arbitrary contents of the damaged responses and any requests before and behind it in the queue.",
 "The tests check only some fields for one function.",
 [MA],[("error report construction",MA)],None,obsM)
p("M12","Master never touches memory it does not own",
 "Whatever arguments are passed to its request functions (with arrays as long as the quantity says), whatever bytes arrive and whenever, the master performs no out-of-bounds, null or otherwise invalid memory access and no other undefined operation, and reads no more of the caller's arrays than the quantity given, none of it when the request is refused.",
 ["inputs","histories","fault_sequences","configurations"],"All quantities 0-65535 with exactly sized heap arrays, arbitrary responses of 0-600 bytes in any event order, re-initialisation at any time, queue sizes 1 to 255.",
 "The tests run without sanitizers and only with small well-formed messages.",
 [MA,MP,MQ,MR,RT,CR],[("limits in request builders",MP),("response checks",MP),("queues",MQ)],None,["AddressSanitizer and UndefinedBehaviorSanitizer reports"])
p("M13","Master keeps the line discipline and its frame while transmitting",
 "The master never starts a transmission before the driver has reported the end of the previous one, nor while a response may still come or the line has not yet been silent for 3.5 characters after one. The frame handed to the driver does not change until its transmission has ended, whatever requests are made meanwhile.",
 ["schedules","histories"],"Any delay of the end of transmission (including inside send), requests filling the queue at any moment, received noise during transmission, late polls.",
 "The tests end every transmission at once and never compare the buffer afterwards.",
 [MA,MQ],[("transmitting state",MA),("message buffer ownership",MQ)],None,obsM)
p("M14","Master initialisation is complete at any time",
 "Initialising the master, at start or again at any moment, configures the driver with the given speed and parity and subscribes to all four driver events; requests not finished are dropped without any report and the whole queue is available again. The next request is transmitted and completed normally with its full retries and timeout, whatever events of the time before still arrive.",
 ["histories","schedules","configurations"],"All baud rates and parities; re-initialisation after every kind of event and in every state and fill level of the queue.",
 "The tests initialise once per test from the same fresh state.",
 [MA,MQ],[("modbus_master_init",MA)],None,["calls of the driver's functions"]+obsM)

p("X01","Transmission errors within the CRC's power are always detected",
 "Every frame sent by either role carries the correct Modbus CRC-16, low byte first. A request or response in which one to three bits, or any bits within a burst of 16, have been changed is never acted upon: the slave changes no data and does not answer it, the master delivers no data, confirmation or exception from it.",
 ["inputs","fault_sequences"],"All frame lengths of both roles; all single-bit errors and all bursts of up to 16 bits at every position for sampled frames, double and triple errors enumerated for short frames and sampled for long ones.",
 "The tests compute the CRC of a few messages and corrupt one.",
 [CR,RT,SL,MA],[("calculate_CRC",CR),("modbus_RTU_recv",RT)],None,obsS+obsM)
p("X02","Master and slave connected by a line agree end to end",
 "With a master and a slave connected by an undisturbed line, every valid request succeeds, each read delivers the slave's values at that time and each confirmed write has taken effect exactly. With disturbances every request still ends with one outcome, every delivered value and confirmation is true, nothing that was not written is ever stored, and normal service resumes when the disturbance ends.",
 ["histories","fault_sequences","schedules","configurations"],"Random command sequences to the slave and to other (simulated) devices, random poll and response timing on a character-level line with 1.5/3.5-character timers, lost, flipped and inserted characters, breaks and muted slaves; corruption is restricted to patterns the CRC detects.",
 "Master and slave are never connected to each other in the tests.",
 [MA,SL,MP,SP],[("both state machines",MA),("both state machines",SL)],None,obsS+obsM)
p("X03","Master and slave roles in one device do not affect each other",
 "A device that runs a master and a slave on two lines gets from each role exactly the frames, data changes and callbacks it would get if the role ran alone, however their polls and driver events are interleaved, including one role being polled from a task that interrupts the other's poll at any point.",
 ["schedules","histories"],"Independent master and slave sessions, interleaved at the level of calls and nested at every instrumented memory access or branch of the library.",
 "The tests never link the two roles together.",
 [MA,SL,RT,CR,PC,BR],[("no shared state in the common code",RT),("no shared state in the common code",CR)],None,obsS+obsM)
p("X04","Driver interrupts may arrive at any point of a poll",
 "The driver's events (received character, 1.5- and 3.5-character silence, end of transmission, character error) and the timeout tick may interrupt the library's poll functions at any point. The exchange then has the same outcome as if the event had come just before or just after the poll: the same response and data, the same callbacks, no lost, repeated or stuck request.",
 ["schedules"],"For a set of slave and master exchanges, every event of the exchange delivered at every instrumented memory access or branch inside every poll in which it can fall, and random combinations of several preemptions.",
 "The tests call the callbacks only between polls.",
 [MA,SL],[("event flags shared with interrupt callbacks",MA),("event flags shared with interrupt callbacks",SL)],None,obsS+obsM)
p("X05","The guarantees hold for every supported configuration",
 "For every queue length, retry count, response timeout and table size set in the configuration, both roles keep all their guarantees with exactly these limits: requests, retries, ticks and addresses up to the configured number work, and the first one beyond it is handled as prescribed.",
 ["configurations","inputs","histories"],"Queue lengths 1-255, retries 0-254, timeouts of 2 to over 65536 ticks, table sizes 1-65535 for each of the four tables independently (sampled, with extremes).",
 "All tests are compiled with one test configuration.",
 [CFG,TY,MQ,MA,SP,SD],[("configuration macros",CFG),("table size limits","src/slave_internall/modbus_slave_data.h")],None,obsS+obsM)
p("X06","The library works with the reference drivers of the repository",
 "A master and a slave built from the library and the STM32 drivers of the examples work together at every speed and parity: on an undisturbed line every request to the slave ends with the slave's true answer and every request to an absent device with a timeout report. After any disturbance of the line, at whatever time, every request still ends, and normal service resumes.",
 ["schedules","histories","fault_sequences","configurations"],"Speeds of 1200-250000 Bd, all parities, random main loop timing; the drivers run unchanged on simulated USART, timer and interrupt registers; a third station sends fragments, foreign frames and false answers at any time, also before the first request.",
 "The drivers are never compiled by the tests; the tests call the callbacks in an idealised order that the drivers do not keep (repeated 1.5-character events, end of transmission reported early and with every character).",
 [MA,SL,"examples/STM32G070RB_MODBUS_MASTER/Drivers/STM32G0_Drivers/modbus_driver_interface.c","examples/STM32G070RB_MODBUS_SLAVE/Core/Src/modbus_driver_interface.c"],[("driver callbacks",MA),("driver callbacks",SL)],None,["characters on the simulated line","calls between the library and the drivers"]+obsM)
p("X07","The library acts only in its polls and never waits",
 "The library starts transmissions, runs the application's callbacks and changes the registered variables only within its poll functions, each role in its own; driver events, the timeout tick, registrations and request functions return without calling the driver or the application, and an initialisation calls only the driver to set it up. No function waits: each returns whatever the driver and the line do, also when a transmission never ends or no response comes.",
 ["schedules","histories","inputs"],"All states of both roles; every driver event, tick, request (accepted and refused, also from callbacks), registration and initialisation, between the polls or interrupting them at any instrumented point.",
 "The tests call the events and the polls alternately and check only what came of it in the end, not which of the calls caused it; applications rely on it to share data with the library without locks.",
 [MA,SL],[("event callbacks, request functions, manager",MA),("event callbacks, registration, state machine",SL)],None,obsS+obsM)
p("X08","Application data are read and written whole, also beside interrupts",
 "Interrupts of the application may read and change the registered variables at any point of a slave poll: at every moment each variable holds what the application put there or the value an accepted write gives it, never another or stale one, and each item of a response is a value its variable had while the request was handled. Likewise each item of a master's multiple write request is a value the caller's array had during the call, and the array is never changed.",
 ["schedules","histories"],"All slave requests and multiple write requests, with the application's data looked at and changed at every instrumented memory access and branch of the library (unoptimised code on a machine that loads and stores 16 bits at once).",
 "The tests look at the data before and after a poll only; a value assembled from two reads or set in two steps looks the same to them.",
 [SD,SP,MA,MP],[("register and coil access functions",SD),("frames of the write requests",MA)],None,obsS+obsM)
p("X09","The library needs no heap and only a little stack",
 "No library function allocates or frees memory. None uses more than 2 KiB of stack (as plain unoptimised code on a 64-bit machine, without the application's callbacks and the driver), whatever is received, requested, configured or has happened before.",
 ["histories","inputs","fault_sequences","configurations"],"The sessions of all kinds of the other properties, both roles, with retries, full queues, long frames, garbage and interrupting events; queue lengths up to 255, 254 retries, tables up to 65535.",
 "The tests run on a machine with a large heap and stack; microcontrollers, for which the library is made, often have no heap and a stack of a few KiB, and fail without a sign when it overflows.",
 [MA,SL,MP,SP,RT],[("state machines",MA),("state machines",SL)],None,["stack depth at every branch and memory access of the library","calls of allocation functions"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
