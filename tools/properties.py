#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/properties.py > properties.jsonl)."""
import json, sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","GridConnect text round-trips every CAN frame",
  "Every CAN frame with an 11-bit (standard) or 29-bit (extended) identifier, normal or remote, with 0 to 8 data bytes is encoded as exactly its GridConnect text in upper case hexadecimal, and decoding that text gives back the same identifier, frame kind, length and data. A frame whose identifier does not fit or that claims more than 8 data bytes is refused, leaving an empty text, and encoding never writes outside a 28-character text plus terminator.",
  ["inputs"],"all identifiers, flags, lengths 0..255 and data bytes",
  "Tests encode and decode about twenty literal frames; the identifier bit shuffling of extended frames has 2^29 cases.",
  ["src/GridConnect.cpp"],[("encodeGridConnect","src/GridConnect.cpp"),("decodeGridConnect","src/GridConnect.cpp")],["return value, text buffer and decoded frame"])
p("C02","GridConnect decoding accepts exactly the well-formed texts",
  "Decoding an arbitrary text succeeds if and only if the text is ':' then 'S' with four or 'X' with eight upper-case hexadecimal digits, then 'N' or 'R', then an even number of at most sixteen upper-case hexadecimal digits, then a final ';', and the frame it yields has exactly the identifier, kind, length and data bytes these digits denote. No text makes it touch memory outside the text and the frame.",
  ["inputs"],"every byte string of up to 29 characters",
  "Tests try a few dozen malformed strings; one wrong character class or length comparison only shows for particular strings.",
  ["src/GridConnect.cpp"],[("decodeGridConnect, checkHexChars, ascii_pair_to_byte","src/GridConnect.cpp")],["return value and decoded frame"])
p("C03","Serial GridConnect framing survives any character stream",
  "For any sequence of received characters, a frame is announced exactly when a ';' completes a well-formed message begun by the latest ':' (letters accepted in either case), and it is the frame that text denotes: noise, oversized or malformed messages before it do not disturb it. Received and error counts tell the well-formed and malformed messages completed (a text beyond the longest message is noise that counts as at most one of each), sent frames appear as their GridConnect text, and no stream writes outside the receive buffer.",
  ["inputs","histories"],"every noise prefix of up to 3 characters, any number of filler characters up to 40, followed by any valid message; malformed messages of any length",
  "There is no test of the serial transport at all, and buffer-limit cases need streams of a particular length.",
  ["src/SerialGC.cpp","src/SerialGC.h","src/GridConnect.cpp"],[("SerialGC::available","src/SerialGC.cpp"),("SerialGC::sendCanFrame","src/SerialGC.cpp")],["available(), getNextCanFrame(), counters, serial output"])
p("C04","CAN controller driver passes frames through unchanged",
  "A frame received from or handed to the CAN controller chip keeps its identifier, extended and remote flags, length and data bytes. The received and sent counts increase by exactly one for each frame received and for each frame the chip accepted, and the send result is what the chip reported. The chip is configured and operated (polled or by interrupt) as set up, also after a reset.",
  ["inputs","histories"],"all frames with at most 8 data bytes, all accept/refuse outcomes, sequences of 4 operations",
  "The driver is compiled but never executed by the tests.",
  ["src/CAN2515.cpp","src/CAN2515.h"],[("CAN2515::getNextCanFrame / sendCanFrame","src/CAN2515.cpp")],["frames at the ACAN2515 interface, counters"])
p("C05","Incoming CAN frames reach the services unaltered, and only when they should",
  "A standard data frame is delivered to the services as exactly one message with the same length and bytes. Extended frames are ignored, a remote frame is answered by exactly one empty standard frame carrying the module's own CAN id and is not delivered, and an empty frame received during an enumeration is not delivered.",
  ["inputs","histories"],"every CAN frame with at most 8 bytes, every CAN id, during and outside enumeration",
  "Tests send a handful of literal frames with one id.",
  ["src/CanService.cpp"],[("CanService::checkIncomingCanFrame","src/CanService.cpp")],["actions on the controller bus, frames at the transport"])
p("C06","Every queued outgoing message is sent once, in order, under the module's id",
  "Each message a service sends leaves the module as exactly one standard, non-remote CAN frame with the default priority and the module's CAN id in its identifier and the same length and bytes, in the order in which messages were sent. This holds for up to 30 pending messages.",
  ["inputs","histories"],"any messages, any CAN id, any number of pending messages up to 30",
  "Tests look at single responses and use one CAN id.",
  ["src/CanService.cpp","src/Controller.cpp","src/CircularBuffer.h"],[("CanService::sendMessage","src/CanService.cpp"),("Controller::sendMessage, actionQueue","src/Controller.cpp")],["frames at the transport"])
p("C07","CAN id self-enumeration selects the lowest free id after 100 ms",
  "A self-enumeration sends one remote frame, collects the CAN ids of empty frames for 100 ms regardless of clock wrap-around, and then makes the lowest id from 1 to 127 that nobody answered with the module's id, stored persistently; before that the id is unchanged. A node-number acknowledgement is sent at the end exactly when a message requested the enumeration, and a received non-empty standard data frame bearing the module's own id starts an enumeration while other frames do not.",
  ["inputs","histories","schedules"],"any response ids, any arrival times, any start time including the clock wrap, any starting CAN id, 0 to 127 distinct responders",
  "Tests enumerate with three fixed responder sets and a clock that never wraps.",
  ["src/CanService.cpp","src/Configuration.cpp"],[("CanService::startCANenumeration, checkCANenumTimout, findFreeCanId","src/CanService.cpp")],["transport frames, stored CAN id, messages"])
p("C08","Setting the CAN id by command accepts 1 to 99 only",
  "A set-CAN-id command addressed to this node with an id from 1 to 99 stores that id and is answered with write acknowledge and an OK response; any other id is answered with error responses and changes nothing. A command for another node changes nothing and is not answered.",
  ["inputs"],"all command payloads and lengths, all node numbers and previous CAN ids",
  "Tests use a few ids.",
  ["src/CanService.cpp"],[("CanService::handleSetCANID","src/CanService.cpp")],["stored CAN id and responses"])
p("C09","Operating mode and node number follow the documented mode transitions",
  "The operating mode moves between uninitialised, setup and normal only by the documented requests (button or command), a node number is taken only while in setup, leaving normal mode for uninitialised releases the node number, and aborting setup restores the previous mode and node number. Each step announces the mode and emits exactly the documented messages, and everything else leaves mode and node number alone.",
  ["histories","inputs"],"every state of (stored mode, node number, momentary mode) and every message or button action, hence inductively every history",
  "Tests follow a few scripted mode histories with fixed node numbers.",
  ["src/MinimumNodeService.cpp","src/Configuration.cpp"],[("MinimumNodeService state machine","src/MinimumNodeService.cpp")],["configuration mode and node number, module flags, emitted messages"])
p("C10","A restart at any message boundary loses nothing",
  "After handling any message or action, starting the module again from its persistent storage gives the same node number, CAN id, stored mode, heartbeat and acknowledgement settings, node variables and taught events as the running module has. In particular every event the running module recognises is recognised after a restart and vice versa.",
  ["histories","inputs","crash_points"],"every storage content and every single message, action or API call from it, hence inductively every history cut at a message boundary",
  "Tests never restart from storage that the module itself has written.",
  ["src/Configuration.cpp","src/EventTeachingService.cpp","src/MinimumNodeService.cpp","src/CanService.cpp","src/EventProducerService.cpp"],[("write-through setters, updateEvHashEntry, clearEvHashTable","src/Configuration.cpp")],["configuration getters of the running and of a freshly started instance"])
p("C11","A command changes only the stored data it is about",
  "Every message changes persistent storage only where its meaning says: identity settings by identity commands, one node variable by a node-variable write, one event entry by teaching or unlearning, all event entries by clear-all, and nothing outside the areas reserved for settings, node variables and events. All other stored bytes keep their values.",
  ["inputs","histories"],"every message of 0 to 8 bytes on every storage content, in and out of learn mode",
  "Tests check the value written, not that everything else is untouched.",
  ["src/Configuration.cpp","src/NodeVariableService.cpp","src/EventTeachingService.cpp"],[("writeNV, writeEvent, writeEventEV address arithmetic","src/Configuration.cpp")],["storage write addresses and contents"])
p("C12","Start-up and factory reset give a well-defined configuration",
  "Starting from blank storage or after a factory reset and restart the module (any storage whose mode is not normal and whose node number reads 65535 counts as blank) is uninitialised with node number 0, CAN id 0, heartbeat and acknowledgement off, all node variables 0 and no events, and the reset is flagged for the application exactly after a commanded reset. Starting from any other storage restores the stored settings and changes no stored byte except replacing a stored setup mode by uninitialised; starting twice gives the same result.",
  ["inputs","configurations"],"every storage content, several table geometries",
  "Tests start from blank or one prepared storage.",
  ["src/Configuration.cpp","src/EepromInternalStorage.cpp"],[("Configuration::begin, loadNVs, resetModule","src/Configuration.cpp")],["configuration getters and storage bytes"])
p("C13","Commands for other nodes are neither obeyed nor answered",
  "A node-addressed command that carries a node number other than the module's own changes neither persistent nor running state and produces no response, except that a learn command for another node ends this module's learn mode.",
  ["inputs"],"all node-addressed op-codes, lengths and payloads, all node numbers, every mode, all services present",
  "Tests check a wrong node number for some op-codes with one number.",
  ["src/MinimumNodeService.cpp","src/NodeVariableService.cpp","src/EventTeachingService.cpp","src/CanService.cpp","src/MinimumNodeServiceWithDiagnostics.cpp"],[("isThisNodeNumber guards","src/*.cpp")],["storage, mode, learn flag and emitted messages"])
p("C14","Truncated commands are rejected without effect",
  "A node-variable, parameter, service, diagnostic, mode, set-node-number or event-teaching command with missing payload bytes (but a complete node number, where it carries one) changes no persistent or running state, and when the module is its addressee (or is in the required setup or learn mode) it is answered with exactly one invalid-command response naming the op-code.",
  ["inputs"],"all such op-codes, all lengths from 3 up to one less than required, all payloads",
  "Tests try one short message per op-code.",
  ["src/MinimumNodeService.cpp","src/NodeVariableService.cpp","src/EventTeachingService.cpp","src/MinimumNodeServiceWithDiagnostics.cpp"],[("msg->len guards","src/*.cpp")],["storage and emitted messages"])
p("C15","Node variables read back what was last written",
  "Reading node variable i returns the value last written to it for 1 to the number of node variables, reading index 0 returns the count followed by every variable in order, and writes are acknowledged. Reading beyond the count, or writing index 0 or beyond the count, is answered with invalid-index errors and changes nothing.",
  ["inputs","histories"],"all indexes and values, all contents, node-variable counts from 0 to 255",
  "Tests use a module with four variables and literal values.",
  ["src/NodeVariableService.cpp","src/Configuration.cpp"],[("NodeVariableService handlers, readNV, writeNV","src/NodeVariableService.cpp")],["responses and stored node variables"])
p("C16","Identity, parameter, name and service queries answer truthfully",
  "Queries for node identity, parameters (all, or by index), module name and service list are answered with exactly the configured parameter bytes, name and services in the documented format, only in the modes in which they apply, and an index beyond the last is answered with the documented errors. The flags parameter always tells which event services are present, whether the module is in normal mode and whether it is in learn mode.",
  ["inputs","configurations"],"all query payloads, parameter blocks, names, modes and several service combinations",
  "Tests query one module configuration with a few indexes.",
  ["src/MinimumNodeService.cpp","src/Controller.cpp","src/Parameters.h"],[("MinimumNodeService query handlers","src/MinimumNodeService.cpp"),("Controller::setParams","src/Controller.cpp")],["emitted messages"])
p("C17","Diagnostic requests return each service's own counters",
  "A diagnostic request for one service and code returns that service's value as a 16-bit quantity under the requested service index and code; for code 0 it returns the number of diagnostics and then each of them once in order. Unknown services or codes are answered with the corresponding error, and counters of produced, consumed and taught events, node number changes and uptime count what happened.",
  ["inputs","histories"],"all service indexes and codes, all counter values reachable by a symbolic transport and clock, sequences of events",
  "Tests query a few codes of a few services with zero counters.",
  ["src/MinimumNodeServiceWithDiagnostics.cpp","src/CanServiceWithDiagnostics.cpp","src/EventConsumerServiceWithDiagnostics.cpp","src/EventProducerServiceWithDiagnostics.cpp","src/EventTeachingServiceWithDiagnostics.cpp"],[("reportDiagnostics, reportAllDiagnostics","src/*WithDiagnostics.cpp")],["emitted messages"])
p("C18","Heartbeats are sent on schedule in normal mode only",
  "While in normal mode with the heartbeat enabled, a heartbeat with the next sequence number is sent whenever more than five seconds have passed since the previous one, never sooner, also across wrap-around of the millisecond clock. No heartbeat is sent while disabled, uninitialised or in setup, and the heartbeat on/off command takes effect at once and survives a restart.",
  ["schedules","histories"],"any clock values and polling instants, any mode and setting, histories of 4 polls",
  "Tests poll at chosen instants and never near clock wrap-around.",
  ["src/MinimumNodeService.cpp"],[("MinimumNodeService::heartbeat","src/MinimumNodeService.cpp")],["emitted messages"])
p("C19","Event lookup finds exactly the stored event",
  "Looking up a node number and event number returns the first table entry that stores this pair, whatever else is stored and even if other entries have the same hash, and reports not-found exactly when no entry stores it. Free-entry search returns the first unused entry and the event count is the number of used entries.",
  ["inputs","histories"],"every table content with up to 4 entries, sparse tables up to 255 entries, every pair",
  "Tests store a few events; hash collisions and a zero hash need particular pairs.",
  ["src/Configuration.cpp"],[("findExistingEvent, makeHash, findEventSpace, numEvents","src/Configuration.cpp")],["return values"])
p("C20","Teaching an event stores it, or says why not",
  "In learn mode, an acknowledged teach command leaves the event stored with that event variable set to the given value, keeps every other entry and variable, and uses the existing entry of the event or else the first free entry (or, for event variable 1 with a non-zero value, the entry that already has this value); teaching by index uses exactly the given entry. A full table, an invalid variable number or an invalid index is answered with the documented error and changes nothing. The identity 65535/65535 is reserved for unused entries.",
  ["inputs","histories"],"every table content with up to 3 entries of up to 3 variables, larger sparse tables, every teach command",
  "Tests teach a few literal events into an almost empty table.",
  ["src/EventTeachingService.cpp","src/Configuration.cpp"],[("handleLearnEvent, handleLearnEventIndex","src/EventTeachingService.cpp")],["storage, responses"])
p("C21","Unlearning removes exactly the named event; clearing removes all",
  "In learn mode, unlearning an event that is stored removes the entry that lookup finds, keeps all others and is acknowledged; for an event that is not stored it is answered with the documented error and changes nothing. A clear-all command for this node in learn mode leaves no event stored and frees every entry; outside learn mode it is refused with the documented error.",
  ["inputs","histories"],"every table content with up to 3 entries, larger sparse tables, every command",
  "Tests unlearn one literal event.",
  ["src/EventTeachingService.cpp","src/Configuration.cpp"],[("handleUnlearnEvent, handleClearEvents","src/EventTeachingService.cpp")],["storage, lookup results, responses"])
p("C22","Event read-back reports the stored table",
  "The reported number of events, number of free entries, list of all events, event by index, and event variables by index or by event are exactly those of the stored table, with the count preceding the values when all variables are requested. Requests naming an unused or non-existing entry, event or variable are answered with the documented errors.",
  ["inputs","histories"],"every table content with up to 3 entries of up to 3 variables, sparse tables up to 255 entries, every request",
  "Tests read back one or two literal events.",
  ["src/EventTeachingService.cpp","src/Configuration.cpp"],[("handleReadEvents, handleReadEventIndex, handleReadEventVariable, handleRequestEventVariable, handleRequestEventCount, handleGetFreeEventSlots","src/EventTeachingService.cpp")],["emitted messages"])
p("C23","The event table can be taught only in learn mode",
  "No message changes the event table while learn mode is off. Learn mode is entered only by a learn command or learn-on mode command carrying this module's node number, is left by the corresponding off commands for this node or by a learn command for another node, and is reported by the learn bit of the module flags.",
  ["histories","inputs"],"every message from every table content and learn state, hence inductively every history",
  "Tests check that some commands are ignored outside learn mode.",
  ["src/EventTeachingService.cpp"],[("enableLearn, inhibitLearn, bLearn guards","src/EventTeachingService.cpp")],["storage, flags parameter"])
p("C24","The event handler runs once for each taught event, and for nothing else",
  "An incoming accessory on or off event, long or short, with up to three data bytes, or a long status response without data (ARON, AROF) calls the application's handler exactly once, with the entry that stores the event and the unmodified message, if and only if the event is taught; short events match by event number alone with node number zero. Other status-response and data op-codes are left open. Messages the module itself sends are consumed the same way exactly when consume-own-events is configured.",
  ["inputs","histories"],"every message and every table content with up to 3 entries, with and without handler and consume-own-events",
  "Tests send a few literal events.",
  ["src/EventConsumerService.cpp","src/ConsumeOwnEventsService.h"],[("EventConsumerService::process, handleConsumedMessage","src/EventConsumerService.cpp")],["handler invocations"])
p("C25","Produced events carry the taught or default event identity",
  "Producing an event for a channel sends exactly one message whose op-code states on/off, long/short form and number of data bytes and which carries the event identity stored for that channel (short events carry the module's node number) and the data bytes given. When none is stored, an entry with the module's node number and the lowest unused event number is created in a free entry first and used from then on; when the table is full nothing is sent and no stored data is damaged. (Channels are non-zero, entries have at least one event variable, node number 65535 is reserved.)",
  ["inputs","histories"],"every table content with up to 3 entries, every channel value, state and data, sequences of two productions",
  "Tests produce from a few fixed tables and never with a full table.",
  ["src/EventProducerService.cpp","src/Configuration.cpp"],[("sendEvent, findOrCreateEventByEv, createDefaultEvent","src/EventProducerService.cpp")],["emitted messages, storage"])
p("C26","Event status requests reach the application only for produced events",
  "An event status request calls the application's request handler exactly once, with the matching entry, if and only if the event is stored with a non-zero first event variable and, for short requests, is addressed to this node or to node 0; nothing is called when no handler is registered. A status response carries the stored identity, state and data bytes of the entry in the response op-code.",
  ["inputs","histories"],"every request and every table content with up to 3 entries, with and without handler",
  "Tests send a few literal requests, always with a handler registered.",
  ["src/EventProducerService.cpp"],[("handleProdSvcMessage, sendEventResponse","src/EventProducerService.cpp")],["handler invocations, emitted messages"])
p("C27","A long message is sent completely, in order and paced",
  "Sending a long message emits a header with stream id and length and then the message bytes in order, five per fragment with consecutive sequence numbers modulo 256, zero padded, one data fragment after the other not closer together than the configured delay even across clock wrap-around; sending ends exactly when all bytes are sent. A second message is refused while one is in progress and does not disturb it.",
  ["inputs","histories","schedules"],"any content and any length up to 12 bytes fully symbolic, long concrete lengths beyond 256 fragments, any polling instants",
  "Tests only check that the service is listed.",
  ["src/LongMessageService.cpp"],[("LongMessageService::sendLongMessage, process","src/LongMessageService.cpp")],["emitted messages"])
p("C28","Long message reception delivers exactly the bytes sent or reports an error",
  "For a subscribed stream the handler receives, in order and without gaps or duplicates, exactly the bytes of the message, in pieces no larger than the receive buffer, the last one marked complete; fragments of other streams in between make no difference. A wrong sequence number or a pause longer than the timeout ends the reception with the corresponding error status, a later message is received normally, and nothing is ever written outside the receive buffer.",
  ["inputs","histories","fault_sequences","schedules"],"messages of up to 12 bytes, buffers of 1 to 12 bytes, any interleaved foreign fragments, any single lost, duplicated or altered fragment; long messages beyond 256 fragments",
  "Tests only check that the service is listed.",
  ["src/LongMessageService.cpp"],[("LongMessageService::processReceivedMessageFragment","src/LongMessageService.cpp")],["handler invocations"])
p("C29","Concurrent long messages do not mix",
  "With multiple-stream support, each message sent is transmitted complete and in order under its own stream id whatever other messages are in progress, and each received message is handed over with exactly its bytes, whatever fragments of other streams are interleaved and whatever pauses shorter than the timeout it has itself. Starting a message for which there is no free sender, or which is already being sent, is refused without effect.",
  ["inputs","histories","schedules"],"two contexts, two to three streams, any contents, any lengths up to 7 bytes, any interleaving of fragments",
  "Tests only check that the service is listed.",
  ["src/LongMessageService.cpp"],[("LongMessageServiceEx","src/LongMessageService.cpp")],["emitted messages, handler invocations"])
p("C30","Corrupted checksummed long messages are never reported complete",
  "With checksums in use, a received message whose checksum does not match its bytes is reported with a checksum error and one that matches, or carries none (zero), is reported complete; without checksums in use a received checksum does not matter; the checksum sent is the CRC-16 of the message bytes. Buffer overflow is reported as truncated, sequence errors and timeouts with their own status, and no fragment writes outside the receive buffer.",
  ["inputs","fault_sequences"],"every message of up to 7 bytes, every alteration of payload or checksum, any buffer length from 1 to 7",
  "Tests only check that the service is listed.",
  ["src/LongMessageService.cpp"],[("crc16, LongMessageServiceEx::processReceivedMessageFragment","src/LongMessageService.cpp")],["handler status and bytes"])
p("C31","The message buffer is a bounded first-in first-out queue",
  "For any capacity and any sequence of operations the buffer returns entries in the order stored, keeps the newest ones when it overflows, reports availability exactly when it is not empty, and its counters of stored, taken and overwritten entries and its high-water mark tell what happened.",
  ["histories","configurations"],"capacities 1 to 5 with every sequence of up to 7 operations; capacities up to 255 filled and overflowed",
  "Tests run a few scripted sequences on small capacities.",
  ["src/CircularBuffer.h"],[("CircularBuffer","src/CircularBuffer.h")],["returned entries, counters"])
p("C32","Storage drivers read back what was written, at the right place",
  "Each storage driver returns for every address the byte last written there by a single or multi-byte write, and writes touch no other address; the external EEPROM driver addresses the configured device with a 16-bit big-endian address and the flash driver keeps bytes across page boundaries. Resetting a driver blanks the area used for variables and events.",
  ["inputs","histories"],"all addresses and values, sequences of two writes of up to 4 bytes",
  "Tests replace the drivers by a mock.",
  ["src/EepromInternalStorage.cpp","src/EepromExternalStorage.cpp","src/FlashStorage.cpp"],[("read, write, readBytes, writeBytes, reset","src/*Storage.cpp")],["device model contents"])
p("C33","Push button presses trigger exactly the documented action",
  "On release, a press of under half a second starts a CAN id enumeration, one of one to two seconds requests renegotiation, one of more than four seconds requests a mode change and any other does nothing; each release triggers at most one action, and durations are right across clock wrap-around. While held longer than four seconds, the mode change is indicated on the LEDs.",
  ["schedules","histories"],"any press and release instants and polling, any clock start, both active levels",
  "The push button code is not executed by any test.",
  ["src/LEDUserInterface.cpp","src/Switch.cpp"],[("LEDUserInterface::checkRequestedAction","src/LEDUserInterface.cpp"),("Switch::run","src/Switch.cpp")],["actions on the controller bus"])
p("C34","LEDs show the mode, blink and pulse on time",
  "The yellow and green LEDs show normal, uninitialised and setup mode as documented after each mode indication; a blinking LED changes state no faster than every 500 ms and does so at the first poll after, and an activity pulse lights the LED for at least 5 ms and ends at the first poll after, across clock wrap-around.",
  ["schedules","histories"],"any sequence of 4 operations and any polling instants",
  "The LED code is not executed by any test.",
  ["src/LED.cpp","src/LEDUserInterface.cpp"],[("LED::run","src/LED.cpp"),("LEDUserInterface::indicateMode","src/LEDUserInterface.cpp")],["pin writes"])
p("C35","Serial console commands never disturb the module",
  "No character typed on the serial console changes stored configuration, events or node variables, or sends a bus message; only the setup command requests a mode change, exactly once. Printing works within its text buffers for every stored content, ends for every table size, and shows the stored node variables and events.",
  ["inputs"],"every character and every storage content of small tables",
  "The console code is not executed by any test.",
  ["src/SerialUserInterface.cpp"],[("SerialUserInterface::processSerialInput","src/SerialUserInterface.cpp")],["storage, actions on the controller bus"])
p("C36","Every message the module sends is well formed",
  "Every answer, announcement, heartbeat, event and event status response a module puts on the bus has exactly the length its op-code announces (one byte plus one for each unit of op-code / 32), and leaves the module as exactly one standard data frame with the same bytes; all but events, PARAMS, NAME, EVANS and messages of one or two bytes carry the module's own node number (before or after a change of it). Producing one event sends at most one message, and an idle module sends nothing but heartbeats.",
  ["inputs","histories"],"every message of up to 8 bytes and every request by the user interface, in every mode, three module configurations, arbitrary stored data; every produced event and status response; any idle time",
  "Tests compare a few literal answers.",
  ["src/Controller.cpp","src/CanService.cpp","src/MinimumNodeService.cpp","src/EventTeachingService.cpp","src/EventProducerService.cpp","src/NodeVariableService.cpp"],[("sendMessageWithNNandData","src/Controller.cpp"),("sendMessage","src/CanService.cpp")],["messages and frames sent"])
p("C37","Messages that are no command of an installed service are ignored",
  "A received message whose op-code is neither a command of one of the installed services nor an event nor a status request leaves no trace: no answer, no stored byte or parameter changed, no mode change or enumeration started, no event handler called, whatever its length and content, also when it names this node. Commands of services that are not installed are ignored the same way.",
  ["inputs","histories","configurations"],"every message of up to 8 bytes with any other op-code, in every mode, four module configurations, arbitrary stored data",
  "Tests send known commands only.",
  ["src/MinimumNodeService.cpp","src/CanService.cpp","src/NodeVariableService.cpp","src/EventTeachingService.cpp","src/EventConsumerService.cpp","src/EventProducerService.cpp"],[("handleMessage","src/MinimumNodeService.cpp"),("handleCanServiceMessage","src/CanService.cpp"),("handleMessage","src/EventTeachingService.cpp")],["messages, storage, parameters, actions"])
p("C38","Modules on one bus work together",
  "With several modules on one bus and whatever order they are polled in: a self-enumeration (requested by the user, commanded, or caused by a message from a module with the same CAN id) ends with an id none of the others has and leaves the others' settings alone; of modules in setup at most one, the last that asked, takes an offered node number; an event produced by one module runs, exactly once and with state, identity and data as produced, the handler of each module that was taught it and of no other; a question or command is answered and obeyed only by the module it names; a long message arrives complete at the modules that listen to its stream. The bus always comes to rest.",
  ["inputs","schedules","histories"],"two or three modules with arbitrary node numbers, CAN ids and data, any polling order for the first 2-5 polls",
  "Tests run a single module without a bus.",
  ["src/Controller.cpp","src/CanService.cpp","src/MinimumNodeService.cpp","src/EventTeachingService.cpp","src/EventConsumerService.cpp","src/EventProducerService.cpp","src/LongMessageService.cpp"],[("checkIncomingCanFrame, startCANenumeration","src/CanService.cpp"),("handleMessage","src/MinimumNodeService.cpp"),("handleConsumedMessage","src/EventConsumerService.cpp")],["frames on the bus, handler invocations, stored settings"])
p("C39","The controller hands every action to every service once and in order",
  "Every action posted by the application or by a service, also while another action is being processed, is handed to every configured service exactly once and unmodified, the services in the configured order and the actions in the order they were posted (up to 30 pending); a poll with nothing pending runs every service once without an action. At start every service is started once, in order, after the stored settings were loaded. The controller's shorthands post exactly the message or indication they name, with the node number and the data given, and the normal-mode flag follows the indicated mode.",
  ["inputs","histories","configurations"],"0 to 4 services, up to 5 actions at a time, services that post up to 4 (thorough 6) further actions in any pattern, bursts of 25 to 30 actions, arbitrary action contents",
  "Tests use fixed service lists and check only the final messages.",
  ["src/Controller.cpp","src/Controller.h","src/ArrayHolder.h","src/CircularBuffer.h"],[("process, putAction, begin, sendMessageWithNNandData","src/Controller.cpp")],["calls of the services"])
p("C40","The lights always show what the module does",
  "From its start and after any message and any request by the user, the LEDs of a module show the mode the module is in: yellow lit and green dark in normal mode, green lit and yellow dark in uninitialised mode, yellow blinking and green dark in setup mode. Every message received in a standard data frame and every message sent lights the green LED for 5 ms; extended frames do not.",
  ["inputs","histories","schedules"],"every message, and every two of mode related messages and user requests, in every mode; every frame; any clock start; user interface first or last in the service list",
  "The user interface code is not executed by any test.",
  ["src/LEDUserInterface.cpp","src/LED.cpp","src/MinimumNodeService.cpp","src/CanService.cpp","src/Controller.cpp"],[("indicateMode, indicateActivity","src/Controller.cpp"),("setNormal, setUninitialised, initSetupCommon","src/MinimumNodeService.cpp")],["LED pins, parameters, answers"])
p("C41","A module behaves alike over every transport",
  "A module connected to a GridConnect serial port, to a CAN controller or to any other CAN transport that delivers the same frames in the same order sends the same frames (over serial: exactly their texts), runs the same handlers, stores the same, enumerates to the same CAN id, and reports the frames its transport received and sent. Nothing that arrives is lost in between, whether the transport hands over a frame or a character per poll, and characters that are no frame do not matter to the module.",
  ["inputs","histories"],"any standard, remote or extended frame, every kind of command, 2-3 frames waiting, enumerations with 2 answers, serial noise of 3 arbitrary characters and 8 malformed texts; arbitrary settings, variables and events",
  "The tests run the services over a mock transport only and the transports without services.",
  ["src/CanService.cpp","src/SerialGC.cpp","src/GridConnect.cpp","src/CAN2515.cpp","src/Controller.cpp","src/CanTransport.h"],[("checkIncomingCanFrame, sendMessage, sendEmptyFrame","src/CanService.cpp"),("available, sendCanFrame","src/SerialGC.cpp"),("available, getNextCanFrame, sendCanFrame","src/CAN2515.cpp")],["frames and texts sent","storage","handler calls","diagnostics"])
p("C42","A power failure loses at most what was being changed",
  "If power fails at any moment while a module handles a message, a request of its user or an event produced by its application, nothing is lost that the message is not about: at no time is a byte of another setting, variable or event disturbed, and every setting and node variable holds its old or its new value. After a restart at any such moment the module has its node number, CAN id, mode and variables, recognises every other stored event as before, and can produce the interrupted event, once, under an identity that is stored. (A factory reset and the very first start concern all data and are left open, and so is storage that erases whole pages.)",
  ["crash points","inputs","histories"],"every message and user request in every mode, arbitrary contents of 2 events with 2 variables each and 2 node variables; power failure before any of the up to 10 storage writes of teaching, unlearning or producing",
  "Tests never interrupt an operation; they look at storage only after it is complete.",
  ["src/Configuration.cpp","src/EventTeachingService.cpp","src/EventProducerService.cpp","src/MinimumNodeService.cpp","src/NodeVariableService.cpp","src/CanService.cpp"],[("writeEvent, writeEventEV, cleareventEEPROM, setNodeNum, setModuleMode","src/Configuration.cpp"),("handleLearnEvent, handleUnlearnEvent","src/EventTeachingService.cpp")],["storage bytes before every write","state after a restart"])
p("C43","Applications may use the library inside their handlers",
  "An event handler, a status request handler or a long message handler may produce events, send responses and messages, start a long message, store events and variables, or register another handler. Everything it asks for is sent exactly once, in the order asked for and with that content; what it stores stays stored; the message it was given stays as it is while it runs; no handler is entered while another one runs; and every other message, already waiting or received meanwhile, leads to exactly the handler calls it is due.",
  ["inputs","histories"],"1-3 waiting events and requests, up to 3 things done by the handlers in any combination, modules with and without consumption of own events; 2 long messages (1-11 bytes) answered with long messages, polls in any pattern, lost and late fragments",
  "Test handlers only record their arguments.",
  ["src/Controller.cpp","src/EventConsumerService.cpp","src/EventProducerService.cpp","src/ConsumeOwnEventsService.cpp","src/LongMessageService.cpp"],[("handleConsumedMessage, processAccessoryEvent","src/EventConsumerService.cpp"),("sendEvent, sendEventResponse, handleProdSvcMessage","src/EventProducerService.cpp"),("processReceivedMessageFragment, sendLongMessage, process","src/LongMessageService.cpp")],["handler calls and their arguments","messages and frames sent","storage"])
for x in P: print(json.dumps(x,ensure_ascii=False))
