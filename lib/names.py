"""Wire names of the named tags (the specification has its own table)."""
TAGS = ['msg-id',
        'badges',
        'badge-info',
        'display-name',
        'emote-only',
        'emotes',
        'flags',
        'id',
        'mod',
        'room-id',
        'subscriber',
        'tmi-sent-ts',
        'turbo',
        'user-id',
        'user-type',
        'client-nonce',
        'first-msg',
        'reply-parent-display-name',
        'reply-parent-msg-body',
        'reply-parent-msg-id',
        'reply-parent-user-id',
        'reply-parent-user-login',
        'reply-thread-parent-msg-id',
        'reply-thread-parent-user-login',
        'followers-only',
        'r9k',
        'rituals',
        'slow',
        'subs-only',
        'msg-param-cumulative-months',
        'msg-param-displayName',
        'msg-param-login',
        'msg-param-months',
        'msg-param-promo-gift-total',
        'msg-param-promo-name',
        'msg-param-recipient-display-name',
        'msg-param-recipient-id',
        'msg-param-recipient-user-name',
        'msg-param-sender-login',
        'msg-param-sender-name',
        'msg-param-should-share-streak',
        'msg-param-streak-months',
        'msg-param-sub-plan',
        'msg-param-sub-plan-name',
        'msg-param-viewerCount',
        'msg-param-ritual-name',
        'msg-param-threshold',
        'msg-param-gift-months',
        'msg-param-color',
        'login',
        'bits',
        'system-msg',
        'emote-sets',
        'thread-id',
        'message-id',
        'returning-chatter',
        'color',
        'vip',
        'target-user-id',
        'target-msg-id',
        'ban-duration',
        'msg-param-multimonth-duration',
        'msg-param-was-gifted',
        'msg-param-multimonth-tenure',
        'sent-ts',
        'msg-param-origin-id',
        'msg-param-fun-string',
        'msg-param-sender-count',
        'msg-param-profileImageURL',
        'msg-param-mass-gift-count',
        'msg-param-gift-month-being-redeemed',
        'msg-param-anon-gift',
        'custom-reward-id',
        'pinned-chat-paid-amount',
        'pinned-chat-paid-canonical-amount',
        'pinned-chat-paid-currency',
        'pinned-chat-paid-exponent',
        'pinned-chat-paid-level',
        'pinned-chat-paid-is-system-message']
"""And of the named commands."""
COMMANDS = ['PING', 'PONG', 'JOIN', 'PART', 'PRIVMSG', 'WHISPER', 'CLEARCHAT', 'CLEARMSG', 'GLOBALUSERSTATE', 'NOTICE', 'RECONNECT', 'ROOMSTATE',
            'USERNOTICE', 'USERSTATE', 'CAP', '001', '002', '003', '004', '353', '366', '372', '375', '376']
