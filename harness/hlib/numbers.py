"""Keys for the harnesses: fixed numbers, small but genuine."""

RSA_A = dict(
    n=0xe956b6827c142bfc7a2cf3cb4a8671c26c341d205792047e7318ac88c3fcd11a0a7d6e9751b8d310fba568342a3e89cef4434daf3b9305daee3b96ff9cf7347b,
    e=0x10001,
    d=0x8bed81334cbf3805872acfe45843b992931ac960acc316c8d1b2b93ca6f3445cc9474c2d9611942530fe3cab15aed412961e55b2cba8610a1b58259839538e71,
    p=0xf15de681febb323890d181da410264e9054b9495d84c3e79f2234534f9e8a999,
    q=0xf77c36c09c37d74bc51149d0b6ea8a5c84383462b4840cc47b21ef2ecb49a333,
    u=0x7f4a281719581e565df1db938abfe254d4b5a62ce71d1c100076f0f536317479)

RSA_B = dict(
    n=0xb3e73f788504b3bd9233a1ed493d2cbc16c7ee48a1dd73234098b1a41141737fa85103f7e3f476de2d44b844f67fd5ae14b6a75b46e407b7e6eed53e938e99f1,
    e=0x10001,
    d=0x52b78fca6536cd41eb980beae352da5fbd05be3ced17ba19ca58aaccea1632f907d78a0e5092b114ceed442ccb3bafc9bdd8cdfad0f37dd6a5a11559ef6135f5,
    p=0xc1da9b3b7c8e53d99b39ca5a070717d948728096b977a6852ea92abdaa7c98b7,
    q=0xed93ba820ce0a7e09bb5cb1c465a4f530e1eb892dca2659d5caa663b7191aa97,
    u=0x75313038fa36433968e5ff3cce5e395e815689089efbc7216d4bd51d6772d973)

RSA_S = dict(
    n=0x9d0e2b16db08c091fa78f2798b45c5859607223cbc3b5c7c30512bec97c43079,
    e=0x10001,
    d=0x9bb42939ee8b1dc75ba7bed48b23efeeb37aa1538e09d0b7784729b35fdd0081,
    p=0xc191af520efd7f2537761e968d3fe069,
    q=0xcfb5ac5acf7bcccb4cb0ca6a5492cd91,
    u=0x2eb91dd0154b5eb91747017cce7e21b)

RSA_L = dict(
    n=0xc08b93368f0a2b96aa0c745106a76a6032487276cf71b91aae446287825e91d521e3219c1baf6e7e8596698ca36e8b94c2a9816dc6d4814fbf026f53373c745cb4931bbceaac3b25ed3023190819831f9d26b16d5616f696b92822096e19804825939c82bcf75a83b62c8113256d249c6c35473ce999af3abfee852adf710e33,
    e=0x10001,
    d=0xb386f0622488c50f9bca3501ff8445c91fd930f0da871ca265ee593824346d211e919a9ae5ad73070123b7926c27fc795def92407aed550cb7fa5b366a003235456e0ef9a3f1bfe27d6c1399576a895e5b66773c6d4e266619a464c8b52b2d8e26e6e636eb09ac69203e87616041e912c24c4014000097d7e92c475faa08fee1,
    p=0xc626aeed3928be739c1df301d94278a370a1fb41d7a518daca594f2e6dafed2d169008724392873ada2b1fc8930be6c934f40d483630871b50619e6f88f9a4ab,
    q=0xf8c1ebe523b6438b0e5f6db1cd783274fb49fd5eb1ec171400cb989363332d0750eaf92a2abf4715f69c1b26edf6ca650fb1a0a57a68207439cc8fcf3b50ec99,
    u=0xc46aa4479895bf5508d98c0ce8dd45b56e78d3bbd34aaad7f4add3fe06cd623fad332a8d209c55030ff18cf1b7513366a4a1646314eb41648b22e8295a253acb)

DSA_A = dict(
    p=0xc8b26f7a02d7b492c3c15f9cbf87971c1bc0b3432e20d83552610eb4b9d3fe5c0b8dc5511c814d495007ed83fe9931725b19e7ffc9eb3965a4044e45f72d491f,
    q=0xdc494cf9a95f1b28ba4dcbef0b0f66e84d661453,
    g=0x884c48c337f4be708f6d15a222ffab1f5acc6192bc5c389393c90ef1b41ed6f369f1521f1d700214ac5bdb5241a66d1161b8cd0321e9f2b6f6295a614b2d5847,
    y=0xbad3a2de9a828389fc616cf6f303c750fbdd0d90781f9d6c0e7e221261f4111319f637b39c8f6f8716a9a23bcb829420ba7bddd9f4e674a37db658d4fb917385,
    x=0xdbce4c1760ff78ca70c30dd88f30d6a84ce5ca5)

DSA_B = dict(
    p=0xbbe2e23aac1adaa356d19e50e750806d6f40cca286ca8807ea30a56ed6b63bb997b067e35ce02e2e86a9507a5ab66b9c6ab00b43157ad4ecdba7065e12944fbb,
    q=0xe043b3ad1b56be23ca1bfe5b28ced6c7ddea3d11,
    g=0x65df7e113c60b9598361dd012d75f967f5c3e56394efac73b81b09eee3fd19e929968f1a9c39851b574065763bfb3873941889cc95ba1deaeedfa6ef9f9b8b31,
    y=0x840417ac6f4c9be341fdac757089cbdc82f7b58c74fce1a593cd517ff0b3d88ae9ec7d9b94a1dbf87c0273a10030256adec68c85664e6f1285ef303fe49a7564,
    x=0x7ebc383a258c967e6fbde3cd08f4e4a163bddb4d)

ELG_A = dict(
    p=0xdf13f13fc49bce993b2e8c315dc5b0d323e972018182f0aba32541c038f367db,
    g=0x3,
    y=0x8c368f4336a5a329fe19aab6b1cb846c8698a6261684c4ad65c814dc11ad91bf,
    x=0xb62bf45645d6d39ddaee86f54d6d369549e37d2013dfa6be081a0c23a9ed565e)

ELG_B = dict(
    p=0xf84c695b5408962440231d2c0e4e0ba2b6ceb80d8ab05c601196aae3d5f50b7f,
    g=0x3,
    y=0xedba8f048dc0c7bcfb3bf9031bbd5fecf5eff9c233dc27b0c0aeaac56c68ca90,
    x=0xb7daba196a1f06ee0e9dcddfadba5d9ce3763314a7b2bf1083b1e3f485a14bcb)
