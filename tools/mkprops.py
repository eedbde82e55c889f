#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os
M='src/modbus_master.c'; S='src/modbus_slave.c'
MP='src/master_internall/modbus_master_PDU.c'; MQ='src/master_internall/modbus_queue.c'; MR='src/master_internall/modbus_master_RTU.c'
SP='src/slave_internall/modbus_slave_PDU.c'; SD='src/slave_internall/modbus_slave_data.c'; SDH='src/slave_internall/modbus_slave_data.h'
RTU='src/common/modbus_RTU.c'; CRC='src/common/modbus_crc.c'; BRW='src/common/buf_rw.c'; PC='src/common/modbus_PDU_common.c'
DRV='src/modbus_driver_interface.h'; MDI='src/modbus_master_data_interface.h'; CFG='src/modbus_config.h'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title)); 
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Slave read replies carry exactly the application values asked for',
 "Whenever the slave receives a valid read request (coils, discrete inputs, holding or input registers) for addresses the application has registered, it replies with the same function code, the right byte count and exactly the current values of the registered variables at those addresses: bits packed least-significant first with the unused bits of the last byte zero, registers high byte first. No read request ever changes application data.",
 ['inputs','histories','configurations'],"every function, start address, quantity 1..2000 / 1..125, data content, table size and (possibly aliased) registration layout, after any earlier traffic",
 "The unit tests read a handful of fixed addresses and quantities with mostly fixed data; they never range over all quantities (bit/byte boundaries, 2000 coils, 125 registers), table sizes or leftovers of an earlier longer reply.",
 [SP,SD,PC,BRW,S],[('read services, bit packing, byte count',SP),('address to variable tables',SD)],['bytes handed to the slave driver send()','the registered application variables'])
p('C02','Slave write requests change exactly the addressed items and are confirmed',
 "Whenever the slave receives a valid write request (single or multiple coils or registers) for registered addresses, the addressed application variables take exactly the requested values, no other application variable changes, and the reply confirms with the address and the value (single) or quantity (multiple) of the request.",
 ['inputs','histories','configurations'],"every write function, address, quantity 1..1968 / 1..123, value pattern, table size and registration layout (aliases included), any sequence of writes and reads",
 "Tests write a few fixed addresses; neighbouring items, the last item of a table, quantities at bit/byte boundaries, aliased registrations and sequences of overlapping writes are not covered.",
 [SP,SD,BRW,S],[('write services',SP),('set_coil_state/set_register_value',SD)],['bytes handed to the slave driver send()','the registered application variables'])
p('C03','Slave rejects invalid requests with the right exception and no data change',
 "A complete request addressed to the slave that asks for an unsupported function, a quantity of zero or above the protocol limit, a byte count that contradicts the quantity, a coil value other than 0x0000/0xFF00, or an address range beyond the configured table is answered with the function code plus 0x80 and exactly the matching exception code (01, 03, 03, 03, 02 respectively; quantity and coil-value errors take precedence over address errors) and changes no application data. Touching an address inside the table that the application never registered is answered with exception 04.",
 ['inputs','configurations'],"all 256 function codes, all address/quantity/byte-count/value combinations, all table sizes and registration layouts",
 "The tests check one example per exception code with one table size; boundaries (size, size+1, address+quantity beyond 65535), precedence and all unsupported codes (0x80..0xFF too) are untested.",
 [SP,SD,SDH,CFG],[('request data checks',SP),('set_exception_code_resp',SP)],['bytes handed to the slave driver send()','the registered application variables'])
p('C04','Slave never acts on frames that are damaged, incomplete or not for it',
 "A received frame with a wrong CRC, with another device's address, with a frame error (an inter-character gap, a damaged byte) reported by the driver, or too short to hold the request its function code announces never changes application data and never yields a normal (non-exception) reply; in the first three cases the slave stays completely silent. This holds whatever bytes earlier frames left behind.",
 ['inputs','fault_sequences','histories'],"any byte sequence up to the buffer size, any corruption (bit flips, truncation, extension, garbage), any slave ID, any preceding traffic",
 "Tests inject one fixed bad CRC, one wrong ID and one frame error; truncated frames with a valid CRC and stale buffer contents are never tried.",
 [S,RTU,CRC,SP],[('address and CRC check',RTU),('frame error / msg received state',S)],['slave driver send() calls','the registered application variables'])
p('C05','Slave answers each valid request exactly once, whatever came before it',
 "After any history of valid, invalid, damaged or foreign frames and line noise that has ended, the next valid request to the slave is answered exactly once, and the reply is the one a freshly started slave with the same application data would give. The slave never transmits anything that is not the single answer to a request addressed to it.",
 ['histories','schedules','fault_sequences'],"all sequences of frames, noise, gap errors and replies, with the slave polled at any moment but at least a few times between frames",
 "Tests drive one or two frames from a fresh start; recovery after a damaged frame whose gap events were delivered in a different order, and long mixed histories, are not explored.",
 [S,RTU,SP],[('slave state machine and its event flags',S)],['slave driver send() calls'],
 [('frame error / T1.5 / T3.5 flags','events reported by the driver and not yet consumed',S),('request length','bytes collected so far',S)])
p('C06','Slave replies only after the silence and never disturbs a reply in progress',
 "The slave hands a reply to its driver only after the driver has reported 3.5 characters of silence following the request it answers, hands over one reply at a time (never a second before the driver reported the first as sent), and leaves the bytes of a reply untouched until it is sent. This holds for every interleaving of driver events with calls of the slave's poll function, including events that interrupt the poll function at any point and drivers that complete a transmission before send() returns.",
 ['schedules','histories'],"all interleavings of received bytes, T1.5, T3.5, gap errors, transmit-done and polls, including events arriving inside a poll or inside send()",
 "Tests fire each event at one hand-picked moment between polls; interrupts inside the library code and completion inside send() never happen in them.",
 [S,DRV],[('TRANSMITTING_RESP state and transmit flag',S),('3.5 character gate',S)],['order of slave driver send() calls and driver events'])
p('C07','Every transmitted frame is a well-formed RTU frame with a correct CRC',
 "Every frame the master or the slave hands to its driver starts with the right device address, carries one protocol data unit, is at most 256 bytes long and ends with the CRC-16/MODBUS of all preceding bytes, low byte first; the announced length is exactly that of the frame, and its bytes do not change until the driver has reported the end of the transmission.",
 ['inputs','histories'],"all requests and replies of every function, length (4..256 bytes) and content, for every device address",
 "CRC and framing are tested on a few constant frames; the longest frames and all table entries of the CRC computation are not exercised systematically.",
 [RTU,CRC,M,S],[('modbus_RTU_send',RTU),('calculate_CRC',CRC)],['bytes handed to driver send()'])
p('C08','Transmission errors are detected: damaged frames are never accepted',
 "If a valid frame is damaged on the line by an error pattern CRC-16/MODBUS is guaranteed to detect (one or two flipped bits, any odd number of flipped bits, any burst of up to 16 bits), the slave does not execute or answer it and the master does not deliver it as data, confirmation or exception.",
 ['inputs','fault_sequences'],"all frames of both directions and all error patterns of the stated classes at any position",
 "Tests overwrite the CRC of one frame with a constant; they cannot show detection over all frames and positions.",
 [RTU,CRC,M,S],[('modbus_RTU_recv CRC verification',RTU),('calculate_CRC',CRC)],['slave replies and data','master application callbacks'])
p('C09','Master requests on the wire encode exactly what the caller asked for',
 "Each accepted master request is transmitted as a frame holding the given slave address, function code, data address, quantity and values exactly (coils 0xFF00/0x0000 or packed least-significant bit first with zero padding, registers high byte first, right byte count), with the values as they were when the request was made even if the caller changes its buffers or issues further requests afterwards; the caller's data themselves are left unchanged.",
 ['inputs','histories'],"all eight request functions, all addresses, legal quantities, slave IDs and values, any earlier use of the message buffers",
 "Tests check a few fixed parameter sets with fresh buffers; stale bytes from longer earlier requests and boundary quantities are not ranged over.",
 [M,MP,BRW,PC,MR],[('request builders',MP),('generate_request',M)],['bytes handed to the master driver send()'])
p('C10','Illegal master requests are refused and have no lasting effect',
 "A master request whose quantity is zero or above the protocol limit (2000 coils/inputs read, 125 registers read, 1968 coils written, 123 registers written) is refused with an error, nothing is ever transmitted or reported for it, and it uses up no request capacity: later legal requests are accepted and executed as if it had never been made.",
 ['inputs','histories'],"all illegal quantities of all functions, any number of them, interleaved with legal requests",
 "Tests check only the return code of a single illegal request; none repeats illegal requests and then needs the capacity.",
 [M,MP,MQ],[('quantity checks',MP),('message buffer return on error',M)],['return codes','master driver send() calls'])
p('C11','Master requests are executed in order, one at a time, up to queue capacity',
 "The master accepts requests until the configured number of message buffers is in use and then refuses with the queue-full error without any effect; every accepted request is transmitted, in the order accepted, and the next one is transmitted only after the previous one has ended. A buffer is free again as soon as its request has ended, so capacity never shrinks over any history, including requests issued from inside application callbacks.",
 ['histories','schedules','configurations'],"all sequences of requests, completions, failures and polls, including requests made from callbacks, all queue sizes",
 "The queue unit tests push and pop a few items once; wrap-around under mixed success/error/timeouts and long histories are not covered.",
 [M,MQ],[('free and tx/rx ring queues',MQ),('master state machine',M)],['return codes','order of frames handed to the master driver'],
 [('free queue / tx_rx queue','message buffers not in use / waiting',M)])
p('C12','Master delivers read responses exactly',
 "When the addressed slave answers a read request with a valid response, the application receives exactly one read callback of the right kind per requested item, for consecutive addresses starting at the requested one, with that slave's address and exactly the value carried by the response, and nothing else is reported.",
 ['inputs','histories'],"all read functions, addresses, legal quantities, response contents and slave IDs, after any earlier traffic",
 "Tests decode a few small fixed responses; quantities up to 2000/125, addresses near 65535 and arbitrary data are not covered.",
 [MP,M,MDI],[('response decoding',MP)],['master application callbacks'])
p('C13','Master confirms writes and reports exceptions exactly and identifiably',
 "When the addressed slave confirms a write request, the application receives exactly one write callback of the right kind with the slave address, data address and number of items of the request; when it answers any request with an exception, the application receives exactly one exception callback of the kind the request belongs to, with slave address, function code, exception code, data address and second request field (quantity, or value for single writes), and nothing else is reported.",
 ['inputs','histories'],"all functions, addresses, quantities, values, exception codes and slave IDs",
 "Tests check single examples; all exception codes, functions and field values are not ranged over, nor repeated use after other outcomes.",
 [MP,M,MDI],[('report_write_operation_confirmation, exception reports',MP)],['master application callbacks'])
p('C14','Master never delivers a response that does not match the request',
 "An intact response from the addressed slave whose function code, byte count, length or echoed fields do not fit the outstanding request (including exception responses for another function) is never delivered to the application as data, confirmation or exception, and never causes memory outside the response to be interpreted as data; the request still ends with an error report or a correct result after a retry.",
 ['inputs','fault_sequences'],"all requests paired with all well-formed, malformed, truncated, over-long and foreign-function responses carrying a valid CRC",
 "All tests answer with the matching response; no test pairs a request with another function's response or a wrong length.",
 [M,MP],[('response checks before decoding',M),('response dispatch',MP)],['master application callbacks','master driver send() calls'])
p('C15','Every accepted request ends in exactly one outcome; the master never hangs',
 "Every accepted request ends, after a bounded number of timeouts and retries, in exactly one of: its data delivered, its confirmation, its exception report, one communication error report, or one timeout report; then the master goes on to the next request. This holds for any response, silence, damage, gap error or noise on the line and for any timing of polls and timer ticks relative to driver events, however late the polls are.",
 ['schedules','fault_sequences','histories'],"all interleavings of driver events, 1 ms ticks and polls (including long gaps without polls), all line behaviours",
 "Tests poll at the one expected moment after each event; missed polls, T1.5 and T3.5 before a poll, ticks passing between polls and noise in each state are not explored.",
 [M,MQ],[('master state machine',M),('response timeout',M)],['master application callbacks','master driver send() calls'],
 [('T1.5/T3.5/frame error/CRC flags','driver events not yet consumed',M),('timeout timer','ms left',M)])
p('C16','Response timeout fires when and only when the slave stays silent',
 "If nothing arrives from the addressed slave within the configured time after the request was sent, the application gets exactly one timeout report carrying slave address, function code, data address and second field of that request, not earlier than the configured time (to the granularity of the 1 ms tick and of the poll that starts the timer) and at the latest at the next polls after it, however long the gap between polls; a response that completes before the configured time never leads to a timeout report.",
 ['schedules','inputs','configurations'],"all request kinds, all poll/tick interleavings, response arrival times on both sides of the limit, timeout settings",
 "Tests set the timer variable to 1 by hand and poll at once; a poll that comes a tick later, real tick sequences and stale data in the report are not covered.",
 [M],[('response timeout timer',M),('timeout report',M)],['modbus_master_data_timeout_error callback','timer tick calls'])
p('C17','Damaged responses are retried the configured number of times, then reported',
 "A response that arrives with a CRC error or a frame error reported by the driver makes the master send the identical request again, at most the configured number of times per request; if a later attempt is answered properly its result is delivered exactly once, otherwise exactly one communication error report is made that names the slave, function code, data address and (unless a single item is written) quantity of the request and the kind of the last error. The retry budget of a request does not depend on earlier requests or on which kinds of errors are mixed.",
 ['fault_sequences','histories','configurations'],"all sequences of good, CRC-damaged, gap-damaged and missing responses across several requests, all retry settings",
 "Tests repeat one kind of error from a fresh start; mixed errors, consecutive failing requests and the state left after an exhausted request are not covered.",
 [M],[('repeat counter and error handlers',M)],['master driver send() calls','modbus_master_communication_error callback'])
p('C18','Traffic of other slaves does not affect a pending request',
 "Intact frames from slaves other than the one addressed that arrive while the master waits are ignored: they cause no callback, no retransmission and no change of the response time limit, and the awaited response that follows is delivered normally.",
 ['inputs','histories','schedules'],"any number and content of foreign frames before the response, any poll timing between them",
 "Tests send one foreign frame and stop; that the genuine response afterwards is still delivered and that the time limit is unchanged is only sampled.",
 [M,RTU],[('address check before response handling',RTU),('response waiting state',M)],['master application callbacks','master driver send() calls'])
p('C19','Outcomes of a master request do not depend on earlier requests or noise',
 "The frame transmitted for a request, the number of transmissions and everything reported for it are the same whether it is the first request after start-up or follows any history of other requests, failures, timeouts, late or unsolicited bytes that has ended.",
 ['histories','fault_sequences'],"all histories followed by any request/response scenario, compared with the same scenario on a fresh master",
 "Each unit test starts from a fresh, zeroed state; leftovers (event flags, retry counts, buffer bytes) can only show over histories.",
 [M,MP,MQ,MR],[('per-request state reset',M)],['master driver send() calls','master application callbacks'])
p('C20','No byte sequence can make master or slave access memory out of bounds',
 "For any bytes and driver events arriving in any state, and any API call with legal pointers, the library performs no out-of-bounds access, undefined operation or endless loop.",
 ['inputs','fault_sequences','histories','configurations'],"arbitrary bytes (0..thousands, buffer-length wrap included), events and API calls in any order, all table sizes",
 "Unit tests run only well-behaved inputs and no sanitizer; hostile lengths and byte counts are not generated.",
 [M,S,MP,SP,RTU,SD],[('length and quantity checks',SP),('fixed size buffers',MR)],['sanitizer reports','hangs'])
p('C21','Master and slave of this library understand each other end to end',
 "With the library's master connected to the library's slave, every read request delivers to the master application exactly the slave application's data, every write request leaves the slave application's data equal to what the master asked for and is confirmed, and requests the slave must refuse arrive at the master application as the corresponding exception.",
 ['inputs','histories','schedules','configurations'],"all requests, data, poll schedules of both sides, table sizes, with and without line errors that retries repair",
 "Integration tests couple both sides for a few fixed exchanges on PDU level, bypassing the drivers, the slave state machine and poll timing.",
 [M,S,MP,SP,RTU],[('both protocol engines over the driver interface',M)],['master application callbacks','slave application variables'])
p('C22','Initialisation and re-initialisation start from a clean state',
 "Initialising the master or slave passes the given baud rate and parity to the driver, subscribes to all driver events and enables the slave's reception; after initialising again at any moment (mid-request, mid-frame, with queued requests or pending events) the device behaves exactly as after first start-up, with the new slave address, and the slave's registered data stay registered.",
 ['histories','inputs'],"all histories before a second initialisation, all parameters",
 "Tests check flag values after one initialisation; none re-initialises in the middle of traffic and then continues.",
 [M,S],[('modbus_master_init',M),('modbus_slave_init',S)],['driver interface calls','behaviour after re-initialisation'])
p('C23','Master and slave in one program do not influence each other',
 "When master and slave run in the same program on separate lines, everything each of them transmits and reports is what it would be if the other were not there, however their calls and events interleave (a call of one may be interrupted by events and calls of the other), including the bytes of a frame while it is being sent.",
 ['schedules','histories'],"all interleavings of a master history with a slave history",
 "The tests exercise master and slave in separate groups; shared state would not show.",
 [M,S,MR,'src/slave_internall/modbus_slave_RTU.c'],[('separate state, buffers and drivers per role',M)],['driver send() calls and callbacks of both roles'])
p('C24','Each data table honours its own configured size, up to the protocol maximum',
 "For any configured numbers of coils, discrete inputs, input registers and holding registers (each different, from 1 up to 65535), exactly the addresses below the size of the table concerned can be registered, read and written; a request reaching beyond it is refused with exception 02 and touches no memory outside the table.",
 ['configurations','inputs'],"several table-size configurations including asymmetric, tiny, larger-than-one-request and 65535; addresses around each boundary",
 "The tests run with one configuration in which all tables of a kind have the same size.",
 [SP,SD,SDH,CFG],[('table size limits',SP),('table arrays',SD)],['slave replies','sanitizer reports'])
p('C25','When an interrupt hits never matters to the result of a master transaction',
 "Driver events and timer ticks that interrupt the master's poll function or request functions at any point give the same outcome for every request as if they had arrived just before or just after the interrupted call; in particular a transmission that completes before the driver's send function returns is handled like any other.",
 ['schedules'],"all positions inside library calls at which transmit-done, received bytes, T1.5, T3.5, gap errors and ticks can arrive",
 "Tests only ever call the event callbacks between library calls.",
 [M],[('order of flag updates around send and receive',M)],['master application callbacks','master driver send() calls'])
p('C26','Before initialisation and in an unsupported mode master and slave stay inert',
 "Until a role has been initialised in RTU mode, and after it has been initialised in a mode the library does not implement, polls, timer ticks, driver events and received bytes have no effect: the slave neither transmits nor changes application data, the master refuses every request and neither transmits nor reports anything, and nothing is accessed out of bounds; a following initialisation in RTU mode brings the role into full service, with every request buffer available and the data registered before still registered.",
 ['histories','inputs'],"all operation sequences before initialisation and after initialisation in an unsupported mode, itself at any moment of service, followed by any traffic in RTU mode",
 "Tests check pointers right after one initialisation in an unknown mode; none goes on polling, requesting or receiving in it, polls before initialisation, or goes on in RTU mode.",
 [M,S],[('modbus_master_init',M),('modbus_slave_init',S),('check_modbus_request',S)],['driver send() calls','request return codes','slave application variables','behaviour after initialisation in RTU mode'])
p('C27','Registered application data take effect at once and exactly where registered',
 "At any moment - before or after initialisation, between requests or while one is being received, again and again - registering an application variable for an address of one of the four tables makes exactly that address of that table refer to that variable from the next executed request on (the last registration wins; the same variable may serve several addresses and both tables of its kind; a null pointer withdraws the item, which then answers like one never registered; an address beyond the table has no effect). Registering has no other effect: no other address changes its meaning, no application variable changes its value, nothing is transmitted, the frame being received is executed as usual, and re-initialisation keeps what is registered.",
 ['inputs','histories'],"all sequences of registrations (tables, addresses, variables, null pointers) interleaved with all request histories and reception stages",
 "Tests register everything once before initialisation and never again.",
 [S],[('register_app_data_to_modbus_slave_coils_table',S),('register_app_data_to_modbus_slave_din_table',S),('register_app_data_to_modbus_slave_inreg_table',S),('register_app_data_to_modbus_slave_hreg_table',S)],['slave application variables','slave driver send() calls'])
p('C28','All work happens in the poll functions, never in events, ticks or request calls',
 "Transmissions of the master and its application callbacks happen only inside calls of update_modbus_master_manager, transmissions of the slave and changes of its application data only inside calls of check_modbus_request: never inside a driver event (bytes, 1.5/3.5 character timeouts, gap error, transmission done), a timer tick, a request function, a registration, an initialisation or the poll function of the other role, whatever those interrupt. So the application may feed events and ticks from interrupts and needs no locking of its data against them.",
 ['schedules','histories'],"all histories and all interleavings of events, ticks, requests and polls of both roles",
 "Tests call events between library calls and look at flags, not at where the work is done.",
 [M,S],[('update_modbus_master_manager',M),('check_modbus_request',S)],['master driver send() calls','slave driver send() calls','master application callbacks','slave application variables'])
p('C29','A master without a pending request transmits and reports nothing',
 "As long as no accepted request is pending - after the initialisation, and again once every request has had its outcome - the master transmits nothing and calls no data, confirmation, exception or error callback, whatever is received (late or repeated answers to the last request, frames of others, noise, gaps), however often it is polled, however much time passes and whatever requests are refused; and none of that keeps the next request from being executed properly.",
 ['inputs','histories','schedules'],"all traffic, events, polls, ticks and refused requests on an idle master, after any finished history",
 "Tests poll an idle master a few times with a silent line; late and repeated answers after the end of a request are not ranged over.",
 [M,MQ],[('modbus_master_idle_state_handling',M),('modbus_master_msg_process_end',M)],['master driver send() calls','master application callbacks'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
