"""The published 256-colour palettes of the games (hex rgb triples)."""
_HEX = {
    'q1':
        '0000000f0f0f1f1f1f2f2f2f3f3f3f4b4b4b5b5b5b6b6b6b7b7b7b8b8b8b9b9b9babababbbbbbbcbcbcbdbdbdbebebeb0f0b07170f0b1f170b271b0f'
        '2f2313372b173f2f174b371b533b1b5b431f634b1f6b531f73571f7b5f238367238f6f230b0b0f13131b1b1b272727332f2f3f37374b3f3f57474767'
        '4f4f735b5b7f63638b6b6b977373a37b7baf8383bb8b8bcb0000000707000b0b001313001b1b002323002b2b072f2f073737073f3f074747074b4b0b'
        '53530b5b5b0b63630b6b6b0f0700000f00001700001f00002700002f00003700003f00004700004f00005700005f00006700006f00007700007f0000'
        '1313001b1b002323002f2b00372f004337004b3b075743075f47076b4b0b77530f8357138b5b13975f1ba3631faf67232313072f170b3b1f0f4b2313'
        '572b17632f1f7337237f3b2b8f43339f4f33af632fbf772fcf8f2bdfab27efcb1ffff31b0b07001b13002b230f372b1347331b533723633f2b6f4733'
        '7f533f8b5f479b6b53a77b5fb7876bc3937bd3a38be3b397ab8ba39f7f979373878b677b7f5b6f7753636b4b575f3f4b5737434b2f3743272f371f23'
        '2b171b231313170b0b0f0707bb739faf6b8fa35f839757778b4f6b7f4b5f7343536b3b4b5f333f532b3747232b3b1f232f171b231313170b0b0f0707'
        'dbc3bbcbb3a7bfa39baf978ba3877b977b6f876f5f7b63536b57475f4b3b533f33433327372b1f271f171b130f0f0b076f837b677b6f5f7367576b5f'
        '4f6357475b4f3f5347374b3f2f43372b3b2f2333271f2b1f1723170f1b130b130b070b07fff31befdf17dbcb13cbb70fbba70fab970b9b83078b7307'
        '7b63076b53005b47004b37003b2b002b1f001b0f000b07000000ff0b0bef1313df1b1bcf2323bf2b2baf2f2f9f2f2f8f2f2f7f2f2f6f2f2f5f2b2b4f'
        '23233f1b1b2f13131f0b0b0f2b00003b00004b07005f07006f0f007f1707931f07a3270bb7330fc34b1bcf632bdb7f3be3974fe7ab5fefbf77f7d38b'
        'a77b3bb79b37c7c337e7e3577fbfffabe7ffd7ffff6700008b0000b30000d70000ff0000fff393fff7c7ffffff9f5b53',
    'h2':
        '000000000000080808101010181818202020282828303030383838404040484848505050545454585858606060686868707070787878808080888888'
        '9494949c9c9ca8a8a8b4b4b4b8b8b8c4c4c4ccccccd4d4d4e0e0e0e8e8e8f0f0f0fcfcfc08080c10101418181c1c202424242c2c2c3430343c383844'
        '4040484c4c585c5c686c7080808498989cb0a8acc4bcc4dc20181428201c302420342c283c342c4438344c40385448405c4c4864544c6c5c54706058'
        '78686080706488746c907c701418141c201c202420282c282c302c303830384038404440444c44545c546870687880788c94889ca498acb4a8bcc4b8'
        '3020083c28084830105438145c401c6448246c502c785c3488683c947448a08054a8885cb49064bc986cc4a074cca87c101410141c141820181c241c'
        '202c202430242838282c3c2c304430344c343c543c445c404c6448546c4c5c745464805c180c0820100828140834180c3c1c0c44200c4c2410542c14'
        '5c301864381c70402078482480502c905c38a87048c084581804042404043000003c0000440000500000580000640000700000840000980000ac0000'
        'c00000d40000e80000fc0000100c201c1430201c38282444342c503c385c44406850487458548064608c6c6c987874a48484b09090bc9c9cc8acacd4'
        '2414043418044420045028006430047c3c048c48049c5808ac6408bc740ccc800cdc9010eca014fcb838f8c850f8dc781410041c18082420082c280c'
        '34301038381040401444481848501c505c2054682858742c5c80345c8c345c943860a0403c1010481818541c1c642424702c2c7c34308c4038984c40'
        '2c1408381c0c482010542814602c1c7034207c38288c4030181410241c142c241c382c20403424483c2c5044305c4c3464543c705c44786448847050'
        '907858988060a08868a8947024180c2c20103428143c2c14483418503c1c58441c684c20946038a06c40ac7448b47c50c08458cc8c5cd89c6c3c145c'
        '642474a848a4cc6cc004540404840400b40000d8000404901044cc2484e058a8e8d80404f44800fc8000fcac18fcfcfc',
    'q2':
        '0000000f0f0f1f1f1f2f2f2f3f3f3f4b4b4b5b5b5b6b6b6b7b7b7b8b8b8b9b9b9babababbbbbbbcbcbcbdbdbdbebebeb634b235b431f533f1f4f3b1b'
        '47371b3f2f173b2b173327132f23132b1f13271b0f23170f1b130b170f0b130f070f0b075f5f6f5b5b675b535f574f5b534b534f474b473f433f3b3b'
        '3b3737332f2f2f2b2b2727272323231b1b1b1717171313138f77537b6343735b3b674f2fcf974ba77b3b8b672f6f5327eb9f27cb8b23af771f93631b'
        '774f175b3b0f3f270b231707a73b2b9f2f23972b1b8b27137f1f0f73170b6717075713004b0f00430f003b0f00330b002b0b00230b001b0700130700'
        '7b5f4b7357436b533f674f3b5f4737574333533f2f4b372b4333273f2f2337271b2f2317271b131f170f170f0b0f0b076f3b175f3717532f17432b17'
        '372313271b0f1b130b0f0b07b35b4fbf7b6fcb9b93d7bbb7cbd7dfb3c7d39fb7c387a7b77397a75b879b47778b2f677f17536f134b670f435b0b3f53'
        '07374b072f3f072733001f2b00171f000f1300070b0000008b5757834f4f7b47477343436b3b3b6333335b2f2f572b2b4b23233f1f1f331b1b2b1313'
        '1f0f0f130b0b0b0707000000979f7b8f9773878b6b7f8363777b5f7373576b6b4f6363475b5b434f4f3b43433337372b2f2f2323231b1717130f0f0b'
        '9f4b3f9343378b3b2f7f3727772f236b2b1b632317571f134f1b0f43170b37130b2b0f071f0b071707000b0000000000777bcf6f73c3676bb76363a7'
        '5b5b9b53578f4b4f7f4747733f3f673737572f2f4b27273f231f2f1b1723130f170b07079bab7b8f9f6f8797637b8b5773834b6777435f6f3b576733'
        '4b5b273f4f1b3743132f3b0b232f071b23001317000b0f0000ff0023e70f3fd31b53bb275fa72f5f8f335f7b33ffffffffffd3ffffa7ffff7fffff53'
        'ffff27ffeb1fffd717ffbf0fffab07ff9300ef7f00e36b00d35700c74700b73b00ab2b009b1f008f17007f0f007307005f00004700002f00001b0000'
        'ef00003737ffff00000000ff2b2b231b1b1713130feb977fc373539f57337b3f1bebd3c7c7ab9ba78b77876b579f5b53',
}
PAL = {k: [tuple(bytes.fromhex(v)[i:i + 3]) for i in range(0, 768, 3)] for k, v in _HEX.items()}
