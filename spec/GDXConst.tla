---- MODULE GDXConst ----
(* GENERATED by tools/mkconst.py: IEEE bit patterns (16 hex digits) of the constants the library uses. *)
(* A double that denotes an acronym (>= 10e300, finite) is written  <hex>@<index>.                      *)
EXTENDS Integers, Sequences, TLC
DefSV == <<"7E37E43C8800759C", "7E47E43C8800759C", "7E51EB2D66005835", "7E57E43C8800759C", "7E5DDD4BAA009303">>
ZvalAcrTok == "7E6DDD4BAA009303@1"
AcrTokens == <<"7E6DDD4BAA009303@1", "7E7DDD4BAA009303@2", "7E8665F8BF806E42@3", "7E8DDD4BAA009303@4", "7E92AA4F4A405BE2@5", "7E9665F8BF806E42@6", "7E9A21A234C080A3@7", "7E9DDD4BAA009303@8", "7EA0CC7A8FA052B2@9", "7EA2AA4F4A405BE2@10", "7EA4882404E06512@11", "7EA665F8BF806E42@12", "7EA843CD7A207772@13", "7EAA21A234C080A3@14", "7EABFF76EF6089D3@15", "7EADDD4BAA009303@16", "7EAFBB2064A09C33@17", "7EB0CC7A8FA052B2@18", "7EB1BB64ECF0574A@19", "7EB2AA4F4A405BE2@20", "7EB39939A790607A@21", "7EB4882404E06512@22", "7EB5770E623069AA@23", "7EB665F8BF806E42@24", "7EB754E31CD072DA@25", "7EB843CD7A207772@26", "7EB932B7D7707C0B@27", "7EBA21A234C080A3@28", "7EBB108C9210853B@29", "7EBBFF76EF6089D3@30", "7EBCEE614CB08E6B@31", "7EBDDD4BAA009303@32", "7EBECC360750979B@33", "7EBFBB2064A09C33@34", "7EC0550560F85066@35", "7EC0CC7A8FA052B2@36", "7EC143EFBE4854FE@37", "7EC1BB64ECF0574A@38", "7EC232DA1B985996@39", "7EC2AA4F4A405BE2@40", "7EC321C478E85E2E@41", "7EC39939A790607A@42", "7EC410AED63862C6@43", "7EC4882404E06512@44", "7EC4FF993388675E@45", "7EC5770E623069AA@46", "7EC5EE8390D86BF6@47", "7EC665F8BF806E42@48", "7EC6DD6DEE28708E@49", "7EC754E31CD072DA@50", "7EC7CC584B787526@51", "7EC843CD7A207772@52", "7EC8BB42A8C879BE@53", "7EC932B7D7707C0B@54", "7EC9AA2D06187E57@55", "7ECA21A234C080A3@56", "7ECA9917636882EF@57", "7ECB108C9210853B@58", "7ECB8801C0B88787@59", "7ECBFF76EF6089D3@60", "7ECC76EC1E088C1F@61", "7ECCEE614CB08E6B@62", "7ECD65D67B5890B7@63", "7ECDDD4BAA009303@64", "7ECE54C0D8A8954F@65", "7ECECC360750979B@66", "7ECF43AB35F899E7@67", "7ECFBB2064A09C33@68", "7ED0194AC9A44F40@69", "7ED0550560F85066@70", "7ED090BFF84C518C@71", "7ED0CC7A8FA052B2@72", "7ED1083526F453D8@73", "7ED143EFBE4854FE@74", "7ED17FAA559C5624@75", "7ED1BB64ECF0574A@76", "7ED1F71F84445870@77", "7ED232DA1B985996@78", "7ED26E94B2EC5ABC@79", "7ED2AA4F4A405BE2@80", "7ED2E609E1945D08@81", "7ED321C478E85E2E@82", "7ED35D7F103C5F54@83", "7ED39939A790607A@84", "7ED3D4F43EE461A0@85", "7ED410AED63862C6@86", "7ED44C696D8C63EC@87", "7ED4882404E06512@88", "7ED4C3DE9C346638@89", "7ED4FF993388675E@90", "7ED53B53CADC6884@91", "7ED5770E623069AA@92", "7ED5B2C8F9846AD0@93", "7ED5EE8390D86BF6@94", "7ED62A3E282C6D1C@95", "7ED665F8BF806E42@96", "7ED6A1B356D46F68@97", "7ED6DD6DEE28708E@98", "7ED71928857C71B4@99", "7ED754E31CD072DA@100", "7ED7909DB4247400@101", "7ED7CC584B787526@102", "7ED80812E2CC764C@103", "7ED843CD7A207772@104", "7ED87F8811747898@105", "7ED8BB42A8C879BE@106", "7ED8F6FD401C7AE5@107", "7ED932B7D7707C0B@108", "7ED96E726EC47D31@109", "7ED9AA2D06187E57@110", "7ED9E5E79D6C7F7D@111", "7EDA21A234C080A3@112", "7EDA5D5CCC1481C9@113", "7EDA9917636882EF@114", "7EDAD4D1FABC8415@115", "7EDB108C9210853B@116", "7EDB4C4729648661@117", "7EDB8801C0B88787@118", "7EDBC3BC580C88AD@119", "7EDBFF76EF6089D3@120", "7EDC3B3186B48AF9@121", "7EDC76EC1E088C1F@122", "7EDCB2A6B55C8D45@123", "7EDCEE614CB08E6B@124", "7EDD2A1BE4048F91@125", "7EDD65D67B5890B7@126", "7EDDA19112AC91DD@127", "7EDDDD4BAA009303@128", "7EDE190641549429@129", "7EDE54C0D8A8954F@130", "7EDE907B6FFC9675@131", "7EDECC360750979B@132", "7EDF07F09EA498C1@133", "7EDF43AB35F899E7@134", "7EDF7F65CD4C9B0D@135", "7EDFBB2064A09C33@136", "7EDFF6DAFBF49D59@137", "7EE0194AC9A44F40@138", "7EE03728154E4FD3@139", "7EE0550560F85066@140", "7EE072E2ACA250F9@141", "7EE090BFF84C518C@142", "7EE0AE9D43F6521F@143", "7EE0CC7A8FA052B2@144", "7EE0EA57DB4A5345@145", "7EE1083526F453D8@146", "7EE12612729E546B@147", "7EE143EFBE4854FE@148", "7EE161CD09F25591@149", "7EE17FAA559C5624@150", "7EE19D87A14656B7@151", "7EE1BB64ECF0574A@152", "7EE1D942389A57DD@153", "7EE1F71F84445870@154", "7EE214FCCFEE5903@155", "7EE232DA1B985996@156", "7EE250B767425A29@157", "7EE26E94B2EC5ABC@158", "7EE28C71FE965B4F@159", "7EE2AA4F4A405BE2@160", "7EE2C82C95EA5C75@161", "7EE2E609E1945D08@162", "7EE303E72D3E5D9B@163", "7EE321C478E85E2E@164", "7EE33FA1C4925EC1@165", "7EE35D7F103C5F54@166", "7EE37B5C5BE65FE7@167", "7EE39939A790607A@168", "7EE3B716F33A610D@169", "7EE3D4F43EE461A0@170", "7EE3F2D18A8E6233@171", "7EE410AED63862C6@172", "7EE42E8C21E26359@173", "7EE44C696D8C63EC@174", "7EE46A46B936647F@175", "7EE4882404E06512@176", "7EE4A601508A65A5@177", "7EE4C3DE9C346638@178", "7EE4E1BBE7DE66CB@179", "7EE4FF993388675E@180", "7EE51D767F3267F1@181", "7EE53B53CADC6884@182", "7EE5593116866917@183", "7EE5770E623069AA@184", "7EE594EBADDA6A3D@185", "7EE5B2C8F9846AD0@186", "7EE5D0A6452E6B63@187", "7EE5EE8390D86BF6@188", "7EE60C60DC826C89@189", "7EE62A3E282C6D1C@190", "7EE6481B73D66DAF@191", "7EE665F8BF806E42@192", "7EE683D60B2A6ED5@193", "7EE6A1B356D46F68@194", "7EE6BF90A27E6FFB@195", "7EE6DD6DEE28708E@196", "7EE6FB4B39D27121@197", "7EE71928857C71B4@198", "7EE73705D1267247@199", "7EE754E31CD072DA@200", "7EE772C0687A736D@201", "7EE7909DB4247400@202", "7EE7AE7AFFCE7493@203", "7EE7CC584B787526@204", "7EE7EA35972275B9@205", "7EE80812E2CC764C@206", "7EE825F02E7676DF@207", "7EE843CD7A207772@208", "7EE861AAC5CA7805@209", "7EE87F8811747898@210", "7EE89D655D1E792B@211", "7EE8BB42A8C879BE@212", "7EE8D91FF4727A51@213", "7EE8F6FD401C7AE5@214", "7EE914DA8BC67B78@215", "7EE932B7D7707C0B@216", "7EE95095231A7C9E@217", "7EE96E726EC47D31@218", "7EE98C4FBA6E7DC4@219", "7EE9AA2D06187E57@220", "7EE9C80A51C27EEA@221", "7EE9E5E79D6C7F7D@222", "7EEA03C4E9168010@223", "7EEA21A234C080A3@224", "7EEA3F7F806A8136@225", "7EEA5D5CCC1481C9@226", "7EEA7B3A17BE825C@227", "7EEA9917636882EF@228", "7EEAB6F4AF128382@229", "7EEAD4D1FABC8415@230", "7EEAF2AF466684A8@231", "7EEB108C9210853B@232", "7EEB2E69DDBA85CE@233", "7EEB4C4729648661@234", "7EEB6A24750E86F4@235", "7EEB8801C0B88787@236", "7EEBA5DF0C62881A@237", "7EEBC3BC580C88AD@238", "7EEBE199A3B68940@239", "7EEBFF76EF6089D3@240", "7EEC1D543B0A8A66@241", "7EEC3B3186B48AF9@242", "7EEC590ED25E8B8C@243", "7EEC76EC1E088C1F@244", "7EEC94C969B28CB2@245", "7EECB2A6B55C8D45@246", "7EECD08401068DD8@247", "7EECEE614CB08E6B@248", "7EED0C3E985A8EFE@249", "7EED2A1BE4048F91@250", "7EED47F92FAE9024@251", "7EED65D67B5890B7@252", "7EED83B3C702914A@253", "7EEDA19112AC91DD@254", "7EEDBF6E5E569270@255", "7EEDDD4BAA009303@256", "7EEDFB28F5AA9396@257", "7EEE190641549429@258", "7EEE36E38CFE94BC@259", "7EEE54C0D8A8954F@260", "7EEE729E245295E2@261", "7EEE907B6FFC9675@262", "7EEEAE58BBA69708@263", "7EEECC360750979B@264", "7EEEEA1352FA982E@265", "7EEF07F09EA498C1@266", "7EEF25CDEA4E9954@267", "7EEF43AB35F899E7@268", "7EEF618881A29A7A@269", "7EEF7F65CD4C9B0D@270", "7EEF9D4318F69BA0@271", "7EEFBB2064A09C33@272", "7EEFD8FDB04A9CC6@273", "7EEFF6DAFBF49D59@274", "7EF00A5C23CF4EF6@275", "7EF0194AC9A44F40@276", "7EF028396F794F89@277", "7EF03728154E4FD3@278", "7EF04616BB23501C@279", "7EF0550560F85066@280", "7EF063F406CD50AF@281", "7EF072E2ACA250F9@282", "7EF081D152775142@283", "7EF090BFF84C518C@284", "7EF09FAE9E2151D5@285", "7EF0AE9D43F6521F@286", "7EF0BD8BE9CB5268@287", "7EF0CC7A8FA052B2@288", "7EF0DB69357552FB@289", "7EF0EA57DB4A5345@290", "7EF0F946811F538E@291", "7EF1083526F453D8@292", "7EF11723CCC95421@293", "7EF12612729E546B@294", "7EF13501187354B4@295", "7EF143EFBE4854FE@296", "7EF152DE641D5547@297", "7EF161CD09F25591@298", "7EF170BBAFC755DA@299", "7EF17FAA559C5624@300", "7EF18E98FB71566D@301", "7EF19D87A14656B7@302", "7EF1AC76471B5700@303", "7EF1BB64ECF0574A@304", "7EF1CA5392C55793@305", "7EF1D942389A57DD@306", "7EF1E830DE6F5826@307", "7EF1F71F84445870@308", "7EF2060E2A1958B9@309", "7EF214FCCFEE5903@310", "7EF223EB75C3594C@311", "7EF232DA1B985996@312", "7EF241C8C16D59DF@313", "7EF250B767425A29@314", "7EF25FA60D175A72@315", "7EF26E94B2EC5ABC@316", "7EF27D8358C15B05@317", "7EF28C71FE965B4F@318", "7EF29B60A46B5B98@319", "7EF2AA4F4A405BE2@320", "7EF2B93DF0155C2B@321", "7EF2C82C95EA5C75@322", "7EF2D71B3BBF5CBE@323", "7EF2E609E1945D08@324", "7EF2F4F887695D51@325", "7EF303E72D3E5D9B@326", "7EF312D5D3135DE4@327", "7EF321C478E85E2E@328", "7EF330B31EBD5E77@329", "7EF33FA1C4925EC1@330", "7EF34E906A675F0A@331", "7EF35D7F103C5F54@332", "7EF36C6DB6115F9D@333", "7EF37B5C5BE65FE7@334", "7EF38A4B01BB6030@335", "7EF39939A790607A@336", "7EF3A8284D6560C3@337", "7EF3B716F33A610D@338", "7EF3C605990F6156@339", "7EF3D4F43EE461A0@340", "7EF3E3E2E4B961E9@341", "7EF3F2D18A8E6233@342", "7EF401C03063627D@343", "7EF410AED63862C6@344", "7EF41F9D7C0D6310@345", "7EF42E8C21E26359@346", "7EF43D7AC7B763A3@347", "7EF44C696D8C63EC@348", "7EF45B5813616436@349", "7EF46A46B936647F@350", "7EF479355F0B64C9@351", "7EF4882404E06512@352", "7EF49712AAB5655C@353", "7EF4A601508A65A5@354", "7EF4B4EFF65F65EF@355", "7EF4C3DE9C346638@356", "7EF4D2CD42096682@357", "7EF4E1BBE7DE66CB@358", "7EF4F0AA8DB36715@359", "7EF4FF993388675E@360", "7EF50E87D95D67A8@361", "7EF51D767F3267F1@362", "7EF52C652507683B@363", "7EF53B53CADC6884@364", "7EF54A4270B168CE@365", "7EF5593116866917@366", "7EF5681FBC5B6961@367", "7EF5770E623069AA@368", "7EF585FD080569F4@369", "7EF594EBADDA6A3D@370", "7EF5A3DA53AF6A87@371", "7EF5B2C8F9846AD0@372", "7EF5C1B79F596B1A@373", "7EF5D0A6452E6B63@374", "7EF5DF94EB036BAD@375", "7EF5EE8390D86BF6@376", "7EF5FD7236AD6C40@377", "7EF60C60DC826C89@378", "7EF61B4F82576CD3@379", "7EF62A3E282C6D1C@380", "7EF6392CCE016D66@381", "7EF6481B73D66DAF@382", "7EF6570A19AB6DF9@383", "7EF665F8BF806E42@384", "7EF674E765556E8C@385", "7EF683D60B2A6ED5@386", "7EF692C4B0FF6F1F@387", "7EF6A1B356D46F68@388", "7EF6B0A1FCA96FB2@389", "7EF6BF90A27E6FFB@390", "7EF6CE7F48537045@391", "7EF6DD6DEE28708E@392", "7EF6EC5C93FD70D8@393", "7EF6FB4B39D27121@394", "7EF70A39DFA7716B@395", "7EF71928857C71B4@396", "7EF728172B5171FE@397", "7EF73705D1267247@398", "7EF745F476FB7291@399", "7EF754E31CD072DA@400", "7EF763D1C2A57324@401", "7EF772C0687A736D@402", "7EF781AF0E4F73B7@403", "7EF7909DB4247400@404", "7EF79F8C59F9744A@405", "7EF7AE7AFFCE7493@406", "7EF7BD69A5A374DD@407", "7EF7CC584B787526@408", "7EF7DB46F14D7570@409", "7EF7EA35972275B9@410", "7EF7F9243CF77603@411", "7EF80812E2CC764C@412", "7EF8170188A17696@413", "7EF825F02E7676DF@414", "7EF834DED44B7729@415", "7EF843CD7A207772@416", "7EF852BC1FF577BC@417", "7EF861AAC5CA7805@418", "7EF870996B9F784F@419", "7EF87F8811747898@420", "7EF88E76B74978E2@421", "7EF89D655D1E792B@422", "7EF8AC5402F37975@423", "7EF8BB42A8C879BE@424", "7EF8CA314E9D7A08@425", "7EF8D91FF4727A51@426", "7EF8E80E9A477A9B@427", "7EF8F6FD401C7AE5@428", "7EF905EBE5F17B2E@429", "7EF914DA8BC67B78@430", "7EF923C9319B7BC1@431", "7EF932B7D7707C0B@432", "7EF941A67D457C54@433", "7EF95095231A7C9E@434", "7EF95F83C8EF7CE7@435", "7EF96E726EC47D31@436", "7EF97D6114997D7A@437", "7EF98C4FBA6E7DC4@438", "7EF99B3E60437E0D@439", "7EF9AA2D06187E57@440", "7EF9B91BABED7EA0@441", "7EF9C80A51C27EEA@442", "7EF9D6F8F7977F33@443", "7EF9E5E79D6C7F7D@444", "7EF9F4D643417FC6@445", "7EFA03C4E9168010@446", "7EFA12B38EEB8059@447", "7EFA21A234C080A3@448", "7EFA3090DA9580EC@449", "7EFA3F7F806A8136@450", "7EFA4E6E263F817F@451", "7EFA5D5CCC1481C9@452", "7EFA6C4B71E98212@453", "7EFA7B3A17BE825C@454", "7EFA8A28BD9382A5@455", "7EFA9917636882EF@456", "7EFAA806093D8338@457", "7EFAB6F4AF128382@458", "7EFAC5E354E783CB@459", "7EFAD4D1FABC8415@460", "7EFAE3C0A091845E@461", "7EFAF2AF466684A8@462", "7EFB019DEC3B84F1@463", "7EFB108C9210853B@464", "7EFB1F7B37E58584@465", "7EFB2E69DDBA85CE@466", "7EFB3D58838F8617@467", "7EFB4C4729648661@468", "7EFB5B35CF3986AA@469", "7EFB6A24750E86F4@470", "7EFB79131AE3873D@471", "7EFB8801C0B88787@472", "7EFB96F0668D87D0@473", "7EFBA5DF0C62881A@474", "7EFBB4CDB2378863@475", "7EFBC3BC580C88AD@476", "7EFBD2AAFDE188F6@477", "7EFBE199A3B68940@478", "7EFBF088498B8989@479", "7EFBFF76EF6089D3@480", "7EFC0E6595358A1C@481", "7EFC1D543B0A8A66@482", "7EFC2C42E0DF8AAF@483", "7EFC3B3186B48AF9@484", "7EFC4A202C898B42@485", "7EFC590ED25E8B8C@486", "7EFC67FD78338BD5@487", "7EFC76EC1E088C1F@488", "7EFC85DAC3DD8C68@489", "7EFC94C969B28CB2@490", "7EFCA3B80F878CFB@491", "7EFCB2A6B55C8D45@492", "7EFCC1955B318D8E@493", "7EFCD08401068DD8@494", "7EFCDF72A6DB8E21@495", "7EFCEE614CB08E6B@496", "7EFCFD4FF2858EB4@497", "7EFD0C3E985A8EFE@498", "7EFD1B2D3E2F8F47@499", "7EFD2A1BE4048F91@500", "7EFD390A89D98FDA@501", "7EFD47F92FAE9024@502", "7EFD56E7D583906D@503", "7EFD65D67B5890B7@504", "7EFD74C5212D9100@505", "7EFD83B3C702914A@506", "7EFD92A26CD79193@507", "7EFDA19112AC91DD@508", "7EFDB07FB8819226@509", "7EFDBF6E5E569270@510", "7EFDCE5D042B92B9@511", "7EFDDD4BAA009303@512">>
IntTokens == <<"0000000000000000", "3FF0000000000000", "4000000000000000", "4008000000000000", "4010000000000000", "4014000000000000", "4018000000000000", "401C000000000000", "4020000000000000", "4022000000000000", "4024000000000000", "4026000000000000", "4028000000000000", "402A000000000000", "402C000000000000", "402E000000000000", "4030000000000000", "4031000000000000", "4032000000000000", "4033000000000000", "4034000000000000", "4035000000000000", "4036000000000000", "4037000000000000", "4038000000000000", "4039000000000000", "403A000000000000", "403B000000000000", "403C000000000000", "403D000000000000", "403E000000000000", "403F000000000000", "4040000000000000", "4040800000000000", "4041000000000000", "4041800000000000", "4042000000000000", "4042800000000000", "4043000000000000", "4043800000000000", "4044000000000000", "4044800000000000", "4045000000000000", "4045800000000000", "4046000000000000", "4046800000000000", "4047000000000000", "4047800000000000", "4048000000000000", "4048800000000000", "4049000000000000", "4049800000000000", "404A000000000000", "404A800000000000", "404B000000000000", "404B800000000000", "404C000000000000", "404C800000000000", "404D000000000000", "404D800000000000", "404E000000000000", "404E800000000000", "404F000000000000", "404F800000000000", "4050000000000000", "4050400000000000", "4050800000000000", "4050C00000000000", "4051000000000000", "4051400000000000", "4051800000000000", "4051C00000000000", "4052000000000000", "4052400000000000", "4052800000000000", "4052C00000000000", "4053000000000000", "4053400000000000", "4053800000000000", "4053C00000000000", "4054000000000000", "4054400000000000", "4054800000000000", "4054C00000000000", "4055000000000000", "4055400000000000", "4055800000000000", "4055C00000000000", "4056000000000000", "4056400000000000", "4056800000000000", "4056C00000000000", "4057000000000000", "4057400000000000", "4057800000000000", "4057C00000000000", "4058000000000000", "4058400000000000", "4058800000000000", "4058C00000000000", "4059000000000000", "4059400000000000", "4059800000000000", "4059C00000000000", "405A000000000000", "405A400000000000", "405A800000000000", "405AC00000000000", "405B000000000000", "405B400000000000", "405B800000000000", "405BC00000000000", "405C000000000000", "405C400000000000", "405C800000000000", "405CC00000000000", "405D000000000000", "405D400000000000", "405D800000000000", "405DC00000000000", "405E000000000000", "405E400000000000", "405E800000000000", "405EC00000000000", "405F000000000000", "405F400000000000", "405F800000000000", "405FC00000000000", "4060000000000000", "4060200000000000", "4060400000000000", "4060600000000000", "4060800000000000", "4060A00000000000", "4060C00000000000", "4060E00000000000", "4061000000000000", "4061200000000000", "4061400000000000", "4061600000000000", "4061800000000000", "4061A00000000000", "4061C00000000000", "4061E00000000000", "4062000000000000", "4062200000000000", "4062400000000000", "4062600000000000", "4062800000000000", "4062A00000000000", "4062C00000000000", "4062E00000000000", "4063000000000000", "4063200000000000", "4063400000000000", "4063600000000000", "4063800000000000", "4063A00000000000", "4063C00000000000", "4063E00000000000", "4064000000000000", "4064200000000000", "4064400000000000", "4064600000000000", "4064800000000000", "4064A00000000000", "4064C00000000000", "4064E00000000000", "4065000000000000", "4065200000000000", "4065400000000000", "4065600000000000", "4065800000000000", "4065A00000000000", "4065C00000000000", "4065E00000000000", "4066000000000000", "4066200000000000", "4066400000000000", "4066600000000000", "4066800000000000", "4066A00000000000", "4066C00000000000", "4066E00000000000", "4067000000000000", "4067200000000000", "4067400000000000", "4067600000000000", "4067800000000000", "4067A00000000000", "4067C00000000000", "4067E00000000000", "4068000000000000", "4068200000000000", "4068400000000000", "4068600000000000", "4068800000000000", "4068A00000000000", "4068C00000000000", "4068E00000000000", "4069000000000000", "4069200000000000", "4069400000000000", "4069600000000000", "4069800000000000", "4069A00000000000", "4069C00000000000", "4069E00000000000", "406A000000000000", "406A200000000000", "406A400000000000", "406A600000000000", "406A800000000000", "406AA00000000000", "406AC00000000000", "406AE00000000000", "406B000000000000", "406B200000000000", "406B400000000000", "406B600000000000", "406B800000000000", "406BA00000000000", "406BC00000000000", "406BE00000000000", "406C000000000000", "406C200000000000", "406C400000000000", "406C600000000000", "406C800000000000", "406CA00000000000", "406CC00000000000", "406CE00000000000", "406D000000000000", "406D200000000000", "406D400000000000", "406D600000000000", "406D800000000000", "406DA00000000000", "406DC00000000000", "406DE00000000000", "406E000000000000", "406E200000000000", "406E400000000000", "406E600000000000", "406E800000000000", "406EA00000000000", "406EC00000000000", "406EE00000000000", "406F000000000000", "406F200000000000", "406F400000000000", "406F600000000000", "406F800000000000", "406FA00000000000", "406FC00000000000", "406FE00000000000", "4070000000000000", "4070100000000000", "4070200000000000", "4070300000000000", "4070400000000000", "4070500000000000", "4070600000000000", "4070700000000000", "4070800000000000", "4070900000000000", "4070A00000000000", "4070B00000000000", "4070C00000000000", "4070D00000000000", "4070E00000000000", "4070F00000000000", "4071000000000000", "4071100000000000", "4071200000000000", "4071300000000000", "4071400000000000", "4071500000000000", "4071600000000000", "4071700000000000", "4071800000000000", "4071900000000000", "4071A00000000000", "4071B00000000000", "4071C00000000000", "4071D00000000000", "4071E00000000000", "4071F00000000000", "4072000000000000", "4072100000000000", "4072200000000000", "4072300000000000", "4072400000000000", "4072500000000000", "4072600000000000", "4072700000000000", "4072800000000000", "4072900000000000", "4072A00000000000", "4072B00000000000", "4072C00000000000", "4072D00000000000", "4072E00000000000", "4072F00000000000", "4073000000000000", "4073100000000000", "4073200000000000", "4073300000000000", "4073400000000000", "4073500000000000", "4073600000000000", "4073700000000000", "4073800000000000", "4073900000000000", "4073A00000000000", "4073B00000000000", "4073C00000000000", "4073D00000000000", "4073E00000000000", "4073F00000000000", "4074000000000000", "4074100000000000", "4074200000000000", "4074300000000000", "4074400000000000", "4074500000000000", "4074600000000000", "4074700000000000", "4074800000000000", "4074900000000000", "4074A00000000000", "4074B00000000000", "4074C00000000000", "4074D00000000000", "4074E00000000000", "4074F00000000000", "4075000000000000", "4075100000000000", "4075200000000000", "4075300000000000", "4075400000000000", "4075500000000000", "4075600000000000", "4075700000000000", "4075800000000000", "4075900000000000", "4075A00000000000", "4075B00000000000", "4075C00000000000", "4075D00000000000", "4075E00000000000", "4075F00000000000", "4076000000000000", "4076100000000000", "4076200000000000", "4076300000000000", "4076400000000000", "4076500000000000", "4076600000000000", "4076700000000000", "4076800000000000", "4076900000000000", "4076A00000000000", "4076B00000000000", "4076C00000000000", "4076D00000000000", "4076E00000000000", "4076F00000000000", "4077000000000000", "4077100000000000", "4077200000000000", "4077300000000000", "4077400000000000", "4077500000000000", "4077600000000000", "4077700000000000", "4077800000000000", "4077900000000000", "4077A00000000000", "4077B00000000000", "4077C00000000000", "4077D00000000000", "4077E00000000000", "4077F00000000000", "4078000000000000", "4078100000000000", "4078200000000000", "4078300000000000", "4078400000000000", "4078500000000000", "4078600000000000", "4078700000000000", "4078800000000000", "4078900000000000", "4078A00000000000", "4078B00000000000", "4078C00000000000", "4078D00000000000", "4078E00000000000", "4078F00000000000", "4079000000000000">>
NegTokens == <<"BFF0000000000000", "C000000000000000", "C008000000000000", "C010000000000000", "C014000000000000", "C018000000000000", "C01C000000000000", "C020000000000000", "C022000000000000", "C024000000000000", "C026000000000000", "C028000000000000", "C02A000000000000", "C02C000000000000", "C02E000000000000", "C030000000000000", "C031000000000000", "C032000000000000", "C033000000000000", "C034000000000000", "C035000000000000", "C036000000000000", "C037000000000000", "C038000000000000", "C039000000000000", "C03A000000000000", "C03B000000000000", "C03C000000000000", "C03D000000000000", "C03E000000000000", "C03F000000000000", "C040000000000000", "C040800000000000", "C041000000000000", "C041800000000000", "C042000000000000", "C042800000000000", "C043000000000000", "C043800000000000", "C044000000000000">>
HalfTok == "3FE0000000000000"
PiTok == "400921FB54442D18"
NegZeroTok == "8000000000000000"
UpperOf == "a" :> "A" @@ "b" :> "B" @@ "c" :> "C" @@ "d" :> "D" @@ "e" :> "E" @@ "f" :> "F" @@ "g" :> "G" @@ "h" :> "H" @@ "i" :> "I" @@ "j" :> "J" @@ "k" :> "K" @@ "l" :> "L" @@ "m" :> "M" @@ "n" :> "N" @@ "o" :> "O" @@ "p" :> "P" @@ "q" :> "Q" @@ "r" :> "R" @@ "s" :> "S" @@ "t" :> "T" @@ "u" :> "U" @@ "v" :> "V" @@ "w" :> "W" @@ "x" :> "X" @@ "y" :> "Y" @@ "z" :> "Z"
Letters == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
CtrlChars == {"\t", "\n", "\r", "\f", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", ""}
ErrText == (-100000) :> "File name is empty" @@
  (-100001) :> "File I/O error" @@
  (0) :> "No error" @@
  (-100002) :> "Bad mode" @@
  (-100003) :> "Bad dimension" @@
  (-100026) :> "Bad dimension for aliased set" @@
  (-100004) :> "Bad UEL Nr" @@
  (-100005) :> "Bad symbol number" @@
  (-100006) :> "Element out of sequence" @@
  (-100007) :> "Duplicate symbol" @@
  (-100008) :> "Data is not sorted" @@
  (-100009) :> "Duplicate keys" @@
  (-100010) :> "Unknown filter" @@
  (-100011) :> "Bad quotes" @@
  (-100012) :> "Illegal identifier" @@
  (-100013) :> "UEL string with different index" @@
  (-100014) :> "Duplicate special value" @@
  (-100015) :> "Bad Error record number" @@
  (-100016) :> "Duplicate UEL" @@
  (-100017) :> "Bad UEL string" @@
  (-100018) :> "Unknown UEL" @@
  (-100019) :> "gdx file has UEL table already" @@
  (-100020) :> "UEL table is not empty" @@
  (-100021) :> "Bad filter number" @@
  (-100022) :> "Bad index in filter" @@
  (-100023) :> "Unmapped index in filter" @@
  (-100024) :> "Use of obsolete function" @@
  (-100025) :> "Data not sorted when writing raw" @@
  (-100047) :> "Bad index for acronym" @@
  (-100048) :> "Bad acronym record number" @@
  (-100049) :> "Bad acronym name for update" @@
  (-100050) :> "Bad acronym index for update" @@
  (-100051) :> "Bad addition to acronym table" @@
  (-100052) :> "Unknown domain" @@
  (-100053) :> "Domain not set with dim=1" @@
  (-100054) :> "Set has no data" @@
  (-100055) :> "Set expected for domain" @@
  (-100056) :> "Bad data type" @@
  (-100057) :> "No symbol to add comment to" @@
  (-100058) :> "Domain violation" @@
  (-100059) :> "File is already open" @@
  (-100060) :> "File version to old for append" @@
  (-100061) :> "Expected data marker (DOMS_1) not found in GDX file" @@
  (-100062) :> "Expected data marker (DOMS_2) not found in GDX file" @@
  (-100063) :> "Expected data marker (DOMS_3) not found in GDX file" @@
  (-100029) :> "Expected data marker (DATA) not found in GDX file" @@
  (-100030) :> "Expected data marker (DIM) not found in GDX file" @@
  (-100031) :> "Expected data marker (BOI) not found in GDX file" @@
  (-100032) :> "Expected data marker (FILEHEADER) not found in GDX file" @@
  (-100034) :> "Expected data marker (FILEMARKER) not found in GDX file" @@
  (-100035) :> "Expected data marker (SYMBOL_1) not found in GDX file" @@
  (-100036) :> "Expected data marker (SYMBOL_2) not found in GDX file" @@
  (-100037) :> "Expected data marker (UEL_1) not found in GDX file" @@
  (-100038) :> "Expected data marker (UEL_2) not found in GDX file" @@
  (-100039) :> "Expected data marker (TEXT_1) not found in GDX file" @@
  (-100040) :> "Expected data marker (TEXT_2) not found in GDX file" @@
  (-100045) :> "Expected data marker (ACRO_1) not found in GDX file" @@
  (-100046) :> "Expected data marker (ACRO_2) not found in GDX file" @@
  (-100033) :> "GDX file version not supported" @@
  (-100041) :> "File not recognized as a GDX file" @@
  (-100043) :> "Out of memory" @@
  (-100044) :> "Compression library not found" @@
  (-100100) :> "GDXCOPY: Unknown error" @@
  (-100101) :> "GDXCOPY: Parameter error" @@
  (-100102) :> "GDXCOPY: DLL not found" @@
  (-100103) :> "GDXCOPY: Cannot create directory" @@
  (-100104) :> "GDXCOPY: File open failed" @@
  (-100105) :> "GDXCOPY: Cannot open file for write" @@
  (-100106) :> "GDXCOPY: UEL length exceeds maximum" @@
  (-100107) :> "GDXCOPY: Cannot register UELs" @@
  (-100108) :> "GDXCOPY: Cannot save explanatory text" @@
  (-100109) :> "GDXCOPY: Dimension exceeds maximum" @@
  (-100110) :> "GDXCOPY: Error writing symbol" @@
  (-100111) :> "GDXCOPY: Error closing file" @@
  (-100112) :> "GDXCOPY: Cannot delete file" @@
  (-100113) :> "GDXCOPY: Cannot rename file"
====
