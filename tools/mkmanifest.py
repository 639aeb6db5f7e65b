#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED={
 'C01':'every exported Parse entry point of sip/parser (message, URL, address, request and status line, every header parser), the lexer, tokenizer and host parser under them, and every constructor and setter they call',
 'C02':'the same functions: loop measures and recursion measures',
 'C03':'StringTokenizer and CoreLexer: peek, consume, mark/rewind, rest, match',
 'C04':'StringTokenizer and CoreLexer scanners (tokens, numbers, byte strings, white space, lines)',
 'C05':'QuotedString, Comment, GetString, CoreParser.NameValue',
 'C06':'Host, HostPort, HostNameParser',
 'C07':'NameValue and NameValueList set/get/has/delete/names/concatenate',
 'C08':'NameValue.String, NameValueList.String and the setters they depend on',
 'C09':'Clone of NameValue, NameValueList, Host, HostPort',
 'C10':'SipURIImpl, TelURLImpl, URIImpl, Authority, UserInfo, TelephoneNumber and AddressImpl: setters, getters, removal, String, Clone',
 'C11':'RTP header and extension Parse/Encode/constructors',
 'C12':'RTP packet build/parse/getters',
 'C13':'RTP/RTCP parsing entry points and getters: every panic-freedom obligation',
 'C14':'RTCP BYE/APP constructors and getters',
 'C15':'RTPTime operations',
 'C16':'RandomRand48 operations',
 'C17':'CollisionList and the address types it compares',
 'C18':'SIPMessage content setters, RemoveContent, GetContent, String and EncodeAsBytes of messages, requests and responses',
 'C19':'StringMsgParser.ParseSIPMessageFromByte, ParseSIPMessage, GetBodyAsBytes and ParseMessage, with everything under them',
 'C20':'SIPMessage attach, set, add, remove and look-up of headers, typed setters and getters, String; NewSIPMessage/Request/Response',
 'C22':'SIPRequest/SIPResponse.GetDialogId, GetDialogId2, From/To.GetUserAtHostPort, GetTag and the parameter and address functions under them',
 'C23':'setters and getters of the numeric, single-field, parameter, authentication, Via, Contact, q-value and timestamp headers',
 'C24':'constructors, EncodeBody and String of every header but Date and the header lists, RequestLine.String, StatusLine.String',
 'C25':'CreateParser, SIPLexer.GetHeaderName/GetHeaderValue, every header parser (kind of the result), HeaderParser.Parse (extension name and value), ParseMessage',
 'C26':'CallIdentifier, CallID and InReplyTo',
 'C27':'ToHexString, ReduceString, GetQuotedString',
}
NA={}
checks=[]
na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',
          technique='contract-based deductive verification: weakest-precondition style obligations generated from the go/ssa form of the real functions, discharged by z3/cvc5',
          level='proof',
          level_note='Functions under contract: '+CLAIMED[i]+'. All inputs and iterations; assumes the trusted contracts, axioms and caller preconditions listed in the evidence file; memory limits, data races and stack depth are outside the model.'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'contracts for this property are not finished; nothing is claimed about it')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
 notes='See DESIGN.md. Contracts: contracts/*.spec; verifier: gover/; replay harnesses: harness/.'),open('/verif/MANIFEST.json','w'),indent=1)
