package eventbus

// VerifSubscribe subscribes and also returns the channel that Unsubscribe asks for
func (e *EventBus) VerifSubscribe(topics ...Topic) (chan Event, chan struct{}) {
	return e.subscribe(topics...)
}
